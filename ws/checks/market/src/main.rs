//! Lock-step exploration of the marketplace over the real NFT, SFT and multi-currency pallets.
use explore::*;
use frame_support::traits::{
	fungibles::{Inspect, Mutate},
	Hooks,
};
pub use seed_pallet_common::test_prelude::*;
use seed_pallet_common::utils::CollectionUtilityFlags;
use seed_pallet_common::*;
use seed_primitives::{CrossChainCompatibility, OriginChain, RoyaltiesSchedule, TokenLockReason};
use sp_runtime::traits::AccountIdConversion;
use sp_runtime::BoundedVec;
use std::collections::{BTreeMap, BTreeSet};
construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
		Sft: pallet_sft,
		Approvals: pallet_token_approvals,
		Market: pallet_marketplace,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
const MAX_OFFERS: usize = 3;
const DURATION: u32 = 45;
const EXTENSION: u64 = 40;
parameter_types! {
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub const SftPalletId: PalletId = PalletId(*b"sftokens");
	pub const MaxTokensPerCollection: u32 = 8;
	pub const MintLimit: u32 = 8;
	pub const StringLimit: u32 = 50;
	pub const MaxTokensPerSftCollection: u32 = 6;
	pub const MaxSerialsPerSftMint: u32 = 3;
	pub const MaxOwnersPerSftToken: u32 = 3;
	pub const MarketId: PalletId = PalletId(*b"marketpl");
	pub const ListingDuration: u64 = DURATION as u64;
	pub const MaxOffers: u32 = MAX_OFFERS as u32;
	pub const MaxTokensPerListing: u32 = 4;
	pub const MaxListingsPerMultiBuy: u32 = 3;
	pub const FeeTo: Option<PalletId> = Some(PalletId(*b"txfeepot"));
	pub const NetworkFee: Permill = Permill::from_perthousand(5);
}
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = Approvals;
	type OnNewAssetSubscription = ();
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type Xls20MintRequest = ();
	type NFIRequest = ();
}
impl pallet_sft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type OnTransferSubscription = Approvals;
	type OnNewAssetSubscription = ();
	type PalletId = SftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type MaxTokensPerSftCollection = MaxTokensPerSftCollection;
	type MaxSerialsPerMint = MaxSerialsPerSftMint;
	type MaxOwnersPerSftToken = MaxOwnersPerSftToken;
	type NFIRequest = ();
}
impl pallet_token_approvals::Config for Test {
	type NFTExt = Nft;
	type WeightInfo = ();
}
impl pallet_marketplace::Config for Test {
	type RuntimeCall = RuntimeCall;
	type DefaultListingDuration = ListingDuration;
	type RuntimeEvent = RuntimeEvent;
	type DefaultFeeTo = FeeTo;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type SFTExt = Sft;
	type PalletId = MarketId;
	type NetworkFeePercentage = NetworkFee;
	type WeightInfo = ();
	type MaxTokensPerListing = MaxTokensPerListing;
	type MaxListingsPerMultiBuy = MaxListingsPerMultiBuy;
	type MaxOffers = MaxOffers;
}
fn res(r: DispatchResult) -> Result<(), String> {
	r.map_err(|e| {
		let s = format!("{e:?}");
		s.split("message: Some(\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or(&s).to_string()
	})
}
fn call(f: impl FnOnce() -> DispatchResult) -> Result<(), String> {
	res(frame_support::storage::with_storage_layer(f))
}
const HOLDER: usize = 9;
const POT: usize = 8;
const MKT: usize = 5;
const ART: usize = 6; // receives royalties
fn acc(i: usize) -> AccountId {
	match i {
		HOLDER => AssetsExtPalletId::get().into_account_truncating(),
		POT => FeeTo::get().unwrap().into_account_truncating(),
		i => create_account(60 + i as u64),
	}
}
const ACC: [usize; 8] = [0, 1, 2, 3, MKT, ART, POT, HOLDER];
const A: AssetId = 7;
const X: AssetId = XRP_ASSET_ID;
const C: u32 = (1 << 10) | 100; // NFT collection
const SC: u32 = (2 << 10) | 100; // SFT collection
const NFTS: u32 = 5;
type Roy = Vec<(usize, u32)>; // parts per million
#[derive(Clone, Hash, Debug)]
enum Tok {
	Nft(u32, Vec<u32>),
	Sft(u32, Vec<(u32, u128)>),
}
#[derive(Clone, Hash, Debug)]
enum Kind {
	Fixed { price: u128, buyer: Option<usize> },
	Auction { reserve: u128, bid: Option<(usize, u128)> },
}
#[derive(Clone, Hash, Debug)]
struct Listing {
	kind: Kind,
	asset: AssetId,
	seller: usize,
	tok: Tok,
	roy: Roy,
	close: u64,
	mkt: Option<u32>,
}
#[derive(Clone, Hash, Debug)]
struct Offer {
	serial: u32,
	asset: AssetId,
	amount: u128,
	buyer: usize,
	mkt: Option<u32>,
}
#[derive(Clone, Hash, Debug)]
struct M {
	now: u64,
	bal: BTreeMap<(AssetId, usize), u128>,
	nft: BTreeMap<u32, usize>,
	locks: BTreeMap<u32, u128>,
	sft: BTreeMap<(u32, usize), (u128, u128)>,
	flags: (bool, bool), // transferable: NFT, SFT
	roy: (Roy, Roy),
	listings: BTreeMap<u128, Listing>,
	next: u128,
	offers: BTreeMap<u64, Offer>,
	next_offer: u64,
	mkts: Vec<(usize, u32)>,
	fee_to: Option<usize>,
}
#[derive(Clone, Debug)]
enum Op {
	Sell { who: usize, tok: Tok, buyer: Option<usize>, asset: AssetId, price: u128, dur: Option<u32>, mkt: Option<u32>, v2: bool },
	Auction { who: usize, tok: Tok, asset: AssetId, reserve: u128, dur: Option<u32>, mkt: Option<u32>, v2: bool },
	Reprice { who: usize, id: u128, price: u128 },
	Buy { who: usize, id: u128 },
	BuyMulti { who: usize, ids: Vec<u128> },
	Bid { who: usize, id: u128, q: u128 },
	Cancel { who: usize, id: u128 },
	Offer { who: usize, serial: u32, q: u128, asset: AssetId, mkt: Option<u32> },
	Withdraw { who: usize, id: u64 },
	Accept { who: usize, id: u64 },
	FeeTo { root: bool, to: Option<usize> },
	Register { who: usize, to: Option<usize>, part: u32 },
	NftMove { who: usize, serial: u32, to: usize },
	NftBurn { who: usize, serial: u32 },
	SftMove { who: usize, serial: u32, q: u128, to: usize },
	Flags { nft: bool, on: bool },
	Wait(u64),
}
impl M {
	fn b(&self, a: AssetId, w: usize) -> u128 {
		self.bal.get(&(a, w)).cloned().unwrap_or(0)
	}
	fn pay(&mut self, a: AssetId, from: usize, to: usize, q: u128) -> Option<()> {
		if q == 0 {
			return Some(());
		}
		let f = self.bal.entry((a, from)).or_default();
		*f = f.checked_sub(q)?;
		*self.bal.entry((a, to)).or_default() += q;
		Some(())
	}
	fn split(&mut self, a: AssetId, from: usize, price: u128, roy: &Roy, seller: usize) -> Option<()> {
		let mut rest = price;
		if self.b(a, from) < price {
			return None;
		}
		for (w, p) in roy {
			// nearest, halves down, and never more than is left
			let x = price * *p as u128;
			let cut = (x / 1_000_000 + (x % 1_000_000 > 500_000) as u128).min(rest);
			rest -= cut;
			self.pay(a, from, *w, cut)?;
		}
		self.pay(a, from, seller, rest)
	}
	fn royalties(&self, tok: &Tok, mkt: Option<u32>) -> Option<Roy> {
		let mut r = match tok {
			Tok::Nft(c, _) => (*c == C).then(|| self.roy.0.clone())?,
			Tok::Sft(c, _) => (*c == SC).then(|| self.roy.1.clone())?,
		};
		if let Some(f) = self.fee_to {
			r.push((f, 5_000));
		}
		if let Some(m) = mkt {
			r.push(*self.mkts.get((m as usize).checked_sub(1)?)?);
		}
		(r.iter().map(|x| x.1).sum::<u32>() <= 1_000_000 && r.len() <= 8).then_some(r)
	}
	fn lock(&mut self, tok: &Tok, who: usize, id: u128) -> Option<()> {
		match tok {
			Tok::Nft(_, l) => {
				for s in l {
					if self.nft.get(s) != Some(&who) || self.locks.contains_key(s) {
						return None;
					}
					self.locks.insert(*s, id);
				}
			},
			Tok::Sft(_, l) => {
				for (s, q) in l {
					let b = self.sft.get_mut(&(*s, who))?;
					b.0 = b.0.checked_sub(*q)?;
					b.1 += q;
				}
			},
		}
		Some(())
	}
	fn unlock(&mut self, tok: &Tok, who: usize) {
		match tok {
			Tok::Nft(_, l) => l.iter().for_each(|s| {
				self.locks.remove(s);
			}),
			Tok::Sft(_, l) => {
				for (s, q) in l {
					let b = self.sft.get_mut(&(*s, who)).unwrap();
					b.0 += q;
					b.1 -= q;
				}
			},
		}
	}
	/// Hand over unlocked tokens.
	fn hand(&mut self, tok: &Tok, from: usize, to: usize) -> Option<()> {
		if from == to {
			return None;
		}
		match tok {
			Tok::Nft(_, l) => {
				self.flags.0.then_some(())?;
				for s in l {
					if self.locks.contains_key(s) || self.nft.get(s) != Some(&from) {
						return None;
					}
					self.nft.insert(*s, to);
				}
			},
			Tok::Sft(_, l) => {
				self.flags.1.then_some(())?;
				for (s, q) in l {
					let b = self.sft.get_mut(&(*s, from))?;
					b.0 = b.0.checked_sub(*q)?;
					if *b == (0, 0) {
						self.sft.remove(&(*s, from));
					}
					if !self.sft.contains_key(&(*s, to)) && self.sft.keys().filter(|k| k.0 == *s).count() == 3 {
						return None;
					}
					self.sft.entry((*s, to)).or_default().0 += q;
				}
			},
		}
		Some(())
	}
	fn list(&mut self, who: usize, tok: &Tok, kind: Kind, asset: AssetId, dur: Option<u32>, mkt: Option<u32>) -> Option<()> {
		let empty = match tok {
			Tok::Nft(_, l) => l.is_empty(),
			Tok::Sft(_, l) => l.is_empty() || l.iter().any(|x| x.1 == 0),
		};
		if empty || dur == Some(0) {
			return None;
		}
		let roy = self.royalties(tok, mkt)?;
		self.lock(tok, who, self.next)?;
		let close = self.now.saturating_add(dur.unwrap_or(DURATION) as u64);
		self.listings.insert(self.next, Listing { kind, asset, seller: who, tok: tok.clone(), roy, close, mkt });
		self.next += 1;
		Some(())
	}
	fn buy(&mut self, who: usize, id: u128) -> Option<()> {
		let l = self.listings.remove(&id)?;
		let Kind::Fixed { price, buyer } = l.kind else { return None };
		if buyer.map_or(false, |b| b != who) {
			return None;
		}
		self.split(l.asset, who, price, &l.roy, l.seller)?;
		self.unlock(&l.tok, l.seller);
		self.hand(&l.tok, l.seller, who)
	}
	fn close(&mut self) {
		let due: Vec<u128> = self.listings.iter().filter(|(_, l)| l.close == self.now).map(|x| *x.0).collect();
		for id in due {
			let l = self.listings.remove(&id).unwrap();
			self.unlock(&l.tok, l.seller);
			if let Kind::Auction { bid: Some((w, q)), .. } = l.kind {
				let mut t = self.clone();
				if t.split(l.asset, HOLDER, q, &l.roy, l.seller).and_then(|_| t.hand(&l.tok, l.seller, w)).is_some() {
					*self = t;
				} else {
					self.pay(l.asset, HOLDER, w, q).unwrap();
				}
			}
		}
	}
	fn apply(&mut self, op: &Op) -> Option<()> {
		match op {
			Op::Sell { who, tok, buyer, asset, price, dur, mkt, .. } => self.list(*who, tok, Kind::Fixed { price: *price, buyer: *buyer }, *asset, *dur, *mkt)?,
			Op::Auction { who, tok, asset, reserve, dur, mkt, .. } => self.list(*who, tok, Kind::Auction { reserve: *reserve, bid: None }, *asset, *dur, *mkt)?,
			Op::Reprice { who, id, price } => {
				let l = self.listings.get_mut(id).filter(|l| l.seller == *who)?;
				let Kind::Fixed { price: p, .. } = &mut l.kind else { return None };
				*p = *price;
			},
			Op::Buy { who, id } => self.buy(*who, *id)?,
			Op::BuyMulti { who, ids } => {
				for id in ids {
					self.buy(*who, *id)?;
				}
			},
			Op::Bid { who, id, q } => {
				let mut l = self.listings.get(id)?.clone();
				let Kind::Auction { reserve, bid } = &mut l.kind else { return None };
				if bid.map_or(*q < *reserve, |b| *q <= b.1) {
					return None;
				}
				self.pay(l.asset, *who, HOLDER, *q)?;
				if let Some((w, q)) = bid {
					self.pay(l.asset, HOLDER, *w, *q)?;
				}
				*bid = Some((*who, *q));
				l.close = l.close.max(self.now + EXTENSION);
				self.listings.insert(*id, l);
			},
			Op::Cancel { who, id } => {
				let l = self.listings.remove(id).filter(|l| l.seller == *who && !matches!(l.kind, Kind::Auction { bid: Some(_), .. }))?;
				self.unlock(&l.tok, *who);
			},
			Op::Offer { who, serial, q, asset, mkt } => {
				let auction = self.locks.get(serial).map_or(false, |id| matches!(self.listings[id].kind, Kind::Auction { .. }));
				if *q == 0 || auction || *self.nft.get(serial)? == *who || self.offers.values().filter(|o| o.serial == *serial).count() == MAX_OFFERS {
					return None;
				}
				self.pay(*asset, *who, HOLDER, *q)?;
				self.offers.insert(self.next_offer, Offer { serial: *serial, asset: *asset, amount: *q, buyer: *who, mkt: *mkt });
				self.next_offer += 1;
			},
			Op::Withdraw { who, id } => {
				let o = self.offers.remove(id).filter(|o| o.buyer == *who)?;
				self.pay(o.asset, HOLDER, *who, o.amount)?;
			},
			Op::Accept { who, id } => {
				let o = self.offers.remove(id)?;
				if self.nft.get(&o.serial) != Some(who) {
					return None;
				}
				if let Some(l) = self.locks.get(&o.serial).cloned() {
					// an auction must run its course: it may already hold somebody's bid
					if matches!(self.listings[&l].kind, Kind::Auction { .. }) {
						return None;
					}
					let l = self.listings.remove(&l)?;
					self.unlock(&l.tok, l.seller);
				}
				let tok = Tok::Nft(C, vec![o.serial]);
				let roy = self.royalties(&tok, o.mkt)?;
				self.split(o.asset, HOLDER, o.amount, &roy, *who)?;
				self.hand(&tok, *who, o.buyer)?;
			},
			Op::FeeTo { root, to } => {
				root.then_some(())?;
				self.fee_to = *to;
			},
			Op::Register { who, to, part } => {
				(*part <= 1_000_000).then_some(())?;
				self.mkts.push((to.unwrap_or(*who), *part));
			},
			Op::NftMove { who, serial, to } => self.hand(&Tok::Nft(C, vec![*serial]), *who, *to)?,
			Op::NftBurn { who, serial } => {
				if self.locks.contains_key(serial) || self.nft.get(serial) != Some(who) {
					return None;
				}
				self.nft.remove(serial);
			},
			Op::SftMove { who, serial, q, to } => self.hand(&Tok::Sft(SC, vec![(*serial, *q)]), *who, *to)?,
			Op::Flags { nft, on } => {
				if *nft {
					self.flags.0 = *on;
				} else {
					self.flags.1 = *on;
				}
			},
			Op::Wait(n) => {
				for _ in 0..*n {
					self.now += 1;
					self.close();
				}
			},
		}
		self.bal.retain(|_, v| *v > 0);
		Some(())
	}
}
type LT = pallet_marketplace::types::ListingTokens<Test>;
fn toks(t: &Tok) -> LT {
	use pallet_marketplace::types::*;
	match t {
		Tok::Nft(c, l) => LT::Nft(NftListing { collection_id: *c, serial_numbers: BoundedVec::truncate_from(l.clone()) }),
		Tok::Sft(c, l) => LT::Sft(SftListing { collection_id: *c, serial_numbers: BoundedVec::truncate_from(l.clone()) }),
	}
}
fn permill(p: u32) -> Permill {
	use codec::{Decode, Encode};
	Permill::decode(&mut &p.encode()[..]).unwrap()
}
fn exec(op: &Op) -> Result<(), String> {
	let s = |w: &usize| RuntimeOrigin::signed(acc(*w));
	let d = |x: &Option<u32>| x.map(|d| d as u64);
	call(|| match op {
		Op::Sell { who, tok: Tok::Nft(c, l), buyer, asset, price, dur, mkt, v2: false } => Market::sell_nft(s(who), *c, BoundedVec::truncate_from(l.clone()), buyer.map(acc), *asset, *price, d(dur), *mkt),
		Op::Sell { who, tok, buyer, asset, price, dur, mkt, .. } => Market::sell(s(who), toks(tok), buyer.map(acc), *asset, *price, d(dur), *mkt),
		Op::Auction { who, tok: Tok::Nft(c, l), asset, reserve, dur, mkt, v2: false } => Market::auction_nft(s(who), *c, BoundedVec::truncate_from(l.clone()), *asset, *reserve, d(dur), *mkt),
		Op::Auction { who, tok, asset, reserve, dur, mkt, .. } => Market::auction(s(who), toks(tok), *asset, *reserve, d(dur), *mkt),
		Op::Reprice { who, id, price } => Market::update_fixed_price(s(who), *id, *price),
		Op::Buy { who, id } => Market::buy(s(who), *id),
		Op::BuyMulti { who, ids } => Market::buy_multi(s(who), BoundedVec::truncate_from(ids.clone())),
		Op::Bid { who, id, q } => Market::bid(s(who), *id, *q),
		Op::Cancel { who, id } => Market::cancel_sale(s(who), *id),
		Op::Offer { who, serial, q, asset, mkt } => Market::make_simple_offer(s(who), (C, *serial), *q, *asset, *mkt),
		Op::Withdraw { who, id } => Market::cancel_offer(s(who), *id),
		Op::Accept { who, id } => Market::accept_offer(s(who), *id),
		Op::FeeTo { root, to } => Market::set_fee_to(if *root { RuntimeOrigin::root() } else { s(&0) }, to.map(acc)),
		Op::Register { who, to, part } => Market::register_marketplace(s(who), to.map(acc), permill(*part)),
		Op::NftMove { who, serial, to } => Nft::transfer(s(who), C, BoundedVec::truncate_from(vec![*serial]), acc(*to)),
		Op::NftBurn { who, serial } => Nft::burn(s(who), (C, *serial)),
		Op::SftMove { who, serial, q, to } => Sft::transfer(s(who), SC, BoundedVec::truncate_from(vec![(*serial, *q)]), acc(*to)),
		Op::Flags { nft: true, on } => Nft::set_utility_flags(s(&0), C, CollectionUtilityFlags { transferable: *on, burnable: true, mintable: true }),
		Op::Flags { on, .. } => Sft::set_utility_flags(s(&0), SC, CollectionUtilityFlags { transferable: *on, burnable: true, mintable: true }),
		Op::Wait(n) => {
			for _ in 0..*n {
				System::set_block_number(System::block_number() + 1);
				<Market as Hooks<u64>>::on_initialize(System::block_number());
			}
			Ok(())
		},
	})
}
fn roy_of(r: &RoyaltiesSchedule<AccountId>) -> Vec<(AccountId, u32)> {
	r.entitlements.iter().map(|x| (x.0, x.1.deconstruct())).collect()
}
fn check(m: &M) -> Check {
	use pallet_marketplace as pm;
	for s in 0..NFTS + 1 {
		let o = Nft::get_token_owner(&(C, s));
		req!(o == m.nft.get(&s).map(|x| acc(*x)), "NFT: token {s} belongs to {o:?}, expected {:?}", m.nft.get(&s));
		let l = Nft::get_token_lock((C, s));
		let w = m.locks.get(&s).map(|x| TokenLockReason::Listed(*x));
		req!(l == w, "NFT lock: token {s} is locked by {l:?}, expected {w:?}");
		let offers: Vec<u64> = pm::TokenOffers::<Test>::get((C, s)).unwrap_or_default().into_inner();
		let w: Vec<u64> = m.offers.iter().filter(|o| o.1.serial == s).map(|o| *o.0).collect();
		req!(offers == w, "offers: token {s} lists offers {offers:?}, expected {w:?}");
	}
	for s in 0..3 {
		if s == 2 && !m.sft.keys().any(|k| k.0 == 2) {
			continue;
		}
		let info = pallet_sft::TokenInfo::<Test>::get((SC, s)).unwrap();
		for a in 0..4 {
			let g = info.owned_tokens.iter().find(|x| x.0 == acc(a)).map(|x| (x.1.free_balance, x.1.reserved_balance)).unwrap_or_default();
			let w = m.sft.get(&(s, a)).cloned().unwrap_or_default();
			req!(g == w, "SFT: account {a} has {g:?} of token {s} (free, reserved), expected {w:?}");
		}
	}
	let mut hold: BTreeMap<(AssetId, usize), u128> = Default::default();
	for o in m.offers.values() {
		*hold.entry((o.asset, o.buyer)).or_default() += o.amount;
	}
	for l in m.listings.values() {
		if let Kind::Auction { bid: Some((w, q)), .. } = l.kind {
			*hold.entry((l.asset, w)).or_default() += q;
		}
	}
	for a in [A, X] {
		for i in ACC {
			let b = AssetsExt::balance(a, &acc(i));
			req!(b == m.b(a, i), "payment: account {i} has {b} of asset {a}, expected {}", m.b(a, i));
			let h = AssetsExt::hold_balance(&MarketId::get(), &acc(i), &a);
			let w = hold.get(&(a, i)).cloned().unwrap_or(0);
			req!(h == w, "holds: {h} of asset {a} is held from account {i}, its offers and winning bids come to {w}");
		}
	}
	req!(pm::NextListingId::<Test>::get() == m.next && pm::NextOfferId::<Test>::get() == m.next_offer && pm::NextMarketplaceId::<Test>::get() as usize == m.mkts.len() + 1, "ids: a next id is wrong");
	for id in 0..m.next + 1 {
		let g = pm::Listings::<Test>::get(id);
		let bid = pm::ListingWinningBid::<Test>::get(id);
		let Some(l) = m.listings.get(&id) else {
			req!(g.is_none() && bid.is_none(), "listings: listing {id} or its bid is still there");
			continue;
		};
		let roy: Vec<(AccountId, u32)> = l.roy.iter().map(|x| (acc(x.0), x.1)).collect();
		let ok = match (&g, &l.kind) {
			(Some(pm::types::Listing::FixedPrice(f)), Kind::Fixed { price, buyer }) => {
				f.payment_asset == l.asset && f.fixed_price == *price && f.buyer == buyer.map(acc) && f.seller == acc(l.seller) && f.tokens == toks(&l.tok) && roy_of(&f.royalties_schedule) == roy && f.marketplace_id == l.mkt && f.close == l.close && bid.is_none()
			},
			(Some(pm::types::Listing::Auction(f)), Kind::Auction { reserve, bid: b }) => {
				f.payment_asset == l.asset && f.reserve_price == *reserve && f.seller == acc(l.seller) && f.tokens == toks(&l.tok) && roy_of(&f.royalties_schedule) == roy && f.marketplace_id == l.mkt && f.close == l.close && bid == b.map(|x| (acc(x.0), x.1))
			},
			_ => false,
		};
		req!(ok, "listings: listing {id} is {g:?} with bid {bid:?}, expected {l:?}");
	}
	let open: BTreeSet<(u32, u128)> = pm::OpenCollectionListings::<Test>::iter().map(|x| (x.0, x.1)).collect();
	let want: BTreeSet<(u32, u128)> = m.listings.iter().map(|(id, l)| (if matches!(l.tok, Tok::Nft(..)) { C } else { SC }, *id)).collect();
	req!(open == want, "open listings: {open:?}, expected {want:?}");
	let ends: BTreeSet<(u64, u128)> = pm::ListingEndSchedule::<Test>::iter().map(|x| (x.0, x.1)).collect();
	let want: BTreeSet<(u64, u128)> = m.listings.iter().map(|(id, l)| (l.close, *id)).collect();
	req!(ends == want, "schedule: listings end at {ends:?}, expected {want:?}");
	for id in 0..m.next_offer + 1 {
		let g = pm::Offers::<Test>::get(id).map(|pm::types::OfferType::Simple(o)| (o.token_id, o.asset_id, o.amount, o.buyer, o.marketplace_id));
		let w = m.offers.get(&id).map(|o| ((C, o.serial), o.asset, o.amount, acc(o.buyer), o.mkt));
		req!(g == w, "offers: offer {id} is {g:?}, expected {w:?}");
	}
	for (i, (a, p)) in m.mkts.iter().enumerate() {
		let g = pm::RegisteredMarketplaces::<Test>::get(i as u32 + 1);
		req!(g.as_ref().map(|g| (g.account, g.entitlement.deconstruct())) == Some((acc(*a), *p)), "marketplaces: {} is {g:?}", i + 1);
	}
	req!(pm::FeeTo::<Test>::get() == m.fee_to.map(acc), "fee receiver: changed");
	Ok(())
}
#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Fixed,
	Auction,
	Offers,
	Fees,
}
struct S(Focus, bool);
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		3
	}
	fn init(&self, i: usize) -> M {
		use frame_support::traits::BuildGenesisConfig as _;
		System::set_block_number(1);
		pallet_nft::NextCollectionId::<Test>::put(1);
		pallet_marketplace::GenesisConfig::<Test>::default().build();
		let mut m = M {
			now: 1,
			bal: Default::default(),
			nft: Default::default(),
			locks: Default::default(),
			sft: Default::default(),
			flags: (true, true),
			roy: (vec![], vec![]),
			listings: Default::default(),
			next: 1,
			offers: Default::default(),
			next_offer: 1,
			mkts: vec![],
			fee_to: Some(POT),
		};
		for a in [A, X] {
			Assets::force_create(RuntimeOrigin::root(), a, acc(0), true, 1).unwrap();
			for (w, q) in [(0, 50), (1, 2000), (2, 1500), (3, 3)] {
				AssetsExt::mint_into(a, &acc(w), q).unwrap();
				m.bal.insert((a, w), q);
			}
		}
		let uri = || MetadataScheme::try_from(b"https://a/".as_slice()).unwrap();
		let sched = |r: &Roy| (!r.is_empty()).then(|| RoyaltiesSchedule { entitlements: BoundedVec::truncate_from(r.iter().map(|x| (acc(x.0), permill(x.1))).collect()) });
		m.roy = match i {
			0 => (vec![(ART, 100_000)], vec![(ART, 250_000), (0, 50_000)]),
			1 => (vec![], vec![]),
			_ => (vec![(ART, 333_333), (MKT, 333_333), (POT, 333_334)], vec![(ART, 500_000), (3, 495_000)]),
		};
		Nft::do_create_collection(acc(0), BoundedVec::truncate_from(b"nft".to_vec()), 0, None, None, uri(), sched(&m.roy.0), OriginChain::Root, CrossChainCompatibility { xrpl: false }).unwrap();
		Nft::mint(RuntimeOrigin::signed(acc(0)), C, NFTS, None).unwrap();
		m.nft = (0..NFTS).map(|s| (s, 0)).collect();
		Sft::create_collection(RuntimeOrigin::signed(acc(0)), BoundedVec::truncate_from(b"sft".to_vec()), None, uri(), sched(&m.roy.1)).unwrap();
		for (s, to) in [(0u32, 0usize), (1, 1)] {
			Sft::create_token(RuntimeOrigin::signed(acc(0)), SC, BoundedVec::truncate_from(b"t".to_vec()), 6, None, Some(acc(to))).unwrap();
			m.sft.insert((s, to), (6, 0));
		}
		if i == 1 {
			Sft::create_token(RuntimeOrigin::signed(acc(0)), SC, BoundedVec::truncate_from(b"t".to_vec()), 1 << 70, None, Some(acc(0))).unwrap();
			m.sft.insert((2, 0), (1 << 70, 0));
		}
		let mut run = |op: Op| {
			m.apply(&op).expect("setup refused by the reference");
			exec(&op).expect("setup");
		};
		run(Op::NftMove { who: 0, serial: 3, to: 1 });
		run(Op::SftMove { who: 0, serial: 0, q: 2, to: 1 });
		run(Op::Register { who: 2, to: Some(MKT), part: 100_000 });
		if i == 1 {
			run(Op::Sell { who: 0, tok: Tok::Nft(C, vec![0, 1]), buyer: None, asset: A, price: 1000, dur: None, mkt: Some(1), v2: false });
			run(Op::Sell { who: 0, tok: Tok::Sft(SC, vec![(0, 2)]), buyer: Some(1), asset: X, price: 30, dur: Some(2), mkt: None, v2: true });
			run(Op::Offer { who: 2, serial: 0, q: 900, asset: A, mkt: None });
			run(Op::Offer { who: 1, serial: 0, q: 40, asset: X, mkt: Some(1) });
			run(Op::Offer { who: 2, serial: 2, q: 7, asset: A, mkt: None });
			run(Op::Auction { who: 0, tok: Tok::Nft(C, vec![2]), asset: A, reserve: 5, dur: Some(2), mkt: None, v2: false });
			run(Op::Bid { who: 1, id: 3, q: 7 });
			// large amounts
			run(Op::Sell { who: 0, tok: Tok::Sft(SC, vec![(2, (1 << 69) + 5)]), buyer: None, asset: X, price: 9, dur: Some(3), mkt: None, v2: true });
		}
		if i == 2 {
			run(Op::FeeTo { root: true, to: None });
			run(Op::Auction { who: 0, tok: Tok::Nft(C, vec![0, 4]), asset: A, reserve: 2, dur: Some(41), mkt: None, v2: true });
			run(Op::Bid { who: 2, id: 1, q: 2 });
			run(Op::Auction { who: 1, tok: Tok::Sft(SC, vec![(1, 4), (0, 1)]), asset: A, reserve: 1, dur: Some(1), mkt: None, v2: true });
			run(Op::Offer { who: 2, serial: 3, q: 2, asset: A, mkt: None });
			run(Op::Sell { who: 1, tok: Tok::Nft(C, vec![3]), buyer: None, asset: A, price: 2, dur: Some(1), mkt: None, v2: true });
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let (f, rich) = (self.0, self.1);
		let mut v = vec![];
		let n = |l: &[u32]| Tok::Nft(C, l.to_vec());
		let s = |l: &[(u32, u128)]| Tok::Sft(SC, l.to_vec());
		let ids: Vec<u128> = m.listings.keys().cloned().chain([m.next]).collect();
		let bundles = vec![n(&[]), n(&[0]), n(&[1, 4]), n(&[3]), n(&[2, 2]), n(&[0, 3]), n(&[9]), Tok::Nft(C + 7, vec![0]), s(&[]), s(&[(0, 2)]), s(&[(0, 0)]), s(&[(0, 1), (1, 3)]), s(&[(0, 1), (0, 2)]), s(&[(1, 7)]), Tok::Sft(C, vec![(0, 1)]), Tok::Nft(SC, vec![0])];
		let waits = |v: &mut Vec<Op>| {
			let mut w: BTreeSet<u64> = m.listings.values().map(|l| l.close - m.now).collect();
			w.insert(1);
			w.extend(m.listings.values().filter_map(|l| (l.close - m.now).checked_sub(1)).filter(|x| *x > 0));
			w.extend(m.listings.values().filter_map(|l| (l.close - m.now).checked_sub(EXTENSION)).filter(|x| *x > 0));
			v.extend(w.into_iter().filter(|w| *w < 90).map(Op::Wait));
		};
		if f == Focus::Fixed || rich {
			for t in &bundles {
				for who in 0..2 {
					v.push(Op::Sell { who, tok: t.clone(), buyer: None, asset: A, price: 1000, dur: None, mkt: None, v2: who == 0 });
				}
			}
			for (who, t) in [(0, n(&[1])), (1, s(&[(0, 1)]))] {
				for (buyer, price, dur, mkt) in [(Some(2), 1, Some(1), None), (None, 999, Some(0), None), (None, 0, Some(u32::MAX), Some(1)), (Some(who), 2, None, Some(2)), (None, u128::MAX / 2_000_000, Some(3), Some(0))] {
					v.push(Op::Sell { who, tok: t.clone(), buyer, asset: X, price, dur, mkt, v2: true });
				}
			}
			for &id in &ids {
				for who in 0..4 {
					v.push(Op::Buy { who, id });
					v.push(Op::Cancel { who, id });
					v.push(Op::Reprice { who, id, price: 3 });
				}
				v.push(Op::Reprice { who: 0, id, price: 2001 });
			}
			for who in 1..3 {
				v.push(Op::BuyMulti { who, ids: ids.iter().cloned().take(3).collect() });
				if ids.len() > 1 {
					v.push(Op::BuyMulti { who, ids: ids[..ids.len() - 1].iter().cloned().take(3).collect() });
					v.push(Op::BuyMulti { who, ids: vec![ids[0], ids[0]] });
				}
			}
			waits(&mut v);
			for on in [false, true] {
				v.push(Op::Flags { nft: true, on });
				v.push(Op::Flags { nft: false, on });
			}
		}
		if f == Focus::Auction || rich {
			for t in &bundles {
				v.push(Op::Auction { who: 0, tok: t.clone(), asset: A, reserve: 4, dur: Some(1), mkt: None, v2: false });
			}
			for (who, t) in [(0, n(&[1, 4])), (1, s(&[(0, 1), (1, 2)]))] {
				for (reserve, dur, mkt) in [(1, Some(41), Some(1)), (5, Some(0), None), (1000, None, None), (1, Some(40), Some(2))] {
					v.push(Op::Auction { who, tok: t.clone(), asset: X, reserve, dur, mkt, v2: true });
				}
			}
			for &id in &ids {
				for who in 0..3 {
					for q in [1, 2, 3, 7, 8, 1000, 1500] {
						v.push(Op::Bid { who, id, q });
					}
					v.push(Op::Cancel { who, id });
				}
				v.push(Op::Buy { who: 1, id });
				v.push(Op::Reprice { who: 0, id, price: 3 });
			}
			waits(&mut v);
			for on in [false, true] {
				v.push(Op::Flags { nft: true, on });
				v.push(Op::Flags { nft: false, on });
			}
			for serial in [0, 1, 2] {
				v.push(Op::NftMove { who: 0, serial, to: 2 });
			}
			v.push(Op::SftMove { who: 1, serial: 1, q: 1, to: 3 });
			v.push(Op::SftMove { who: 1, serial: 1, q: 1, to: 0 });
		}
		if f == Focus::Offers || rich {
			for who in 0..4 {
				for serial in [0, 2, 3, 9] {
					for (q, asset, mkt) in [(0, A, None), (2, A, None), (3, X, Some(1)), (999, A, Some(2))] {
						v.push(Op::Offer { who, serial, q, asset, mkt });
					}
				}
				for &id in m.offers.keys().chain([&m.next_offer]) {
					v.push(Op::Withdraw { who, id });
					v.push(Op::Accept { who, id });
				}
			}
			v.push(Op::Sell { who: 0, tok: n(&[0, 2]), buyer: None, asset: A, price: 10, dur: None, mkt: None, v2: false });
			v.push(Op::Auction { who: 0, tok: n(&[0]), asset: A, reserve: 1, dur: Some(1), mkt: None, v2: false });
			for who in [0, 1, 2] {
				for serial in [0, 3] {
					v.push(Op::NftMove { who, serial, to: (who + 1) % 3 });
					v.push(Op::NftBurn { who, serial });
				}
			}
			for &id in &ids {
				v.push(Op::Buy { who: 2, id });
				v.push(Op::Cancel { who: 0, id });
				v.push(Op::Bid { who: 1, id, q: 9 });
			}
			for on in [false, true] {
				v.push(Op::Flags { nft: true, on });
			}
			waits(&mut v);
		}
		if f == Focus::Fees || rich {
			for root in [true, false] {
				for to in [None, Some(3), Some(POT)] {
					v.push(Op::FeeTo { root, to });
				}
			}
			if m.mkts.len() < 3 {
				for (to, part) in [(None, 0), (Some(3), 250_000), (Some(ART), 995_000), (None, 995_001), (None, 1_000_000), (None, 1_000_001)] {
					v.push(Op::Register { who: 2, to, part });
				}
			}
			for mkt in [None, Some(0), Some(1), Some(2), Some(3)] {
				for (who, t) in [(0, n(&[1])), (1, s(&[(1, 1)]))] {
					for price in [1, 2, 199, 1000] {
						v.push(Op::Sell { who, tok: t.clone(), buyer: None, asset: A, price, dur: Some(1), mkt, v2: true });
					}
					v.push(Op::Auction { who, tok: t.clone(), asset: A, reserve: 2, dur: Some(1), mkt, v2: true });
				}
				v.push(Op::Offer { who: 2, serial: 3, q: 333, asset: A, mkt });
			}
			for &id in &ids {
				v.push(Op::Buy { who: 2, id });
				for q in [2, 5, 333] {
					v.push(Op::Bid { who: 2, id, q });
				}
			}
			for &id in m.offers.keys() {
				for who in 0..2 {
					v.push(Op::Accept { who, id });
				}
			}
			waits(&mut v);
		}
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let h = shim::ext::state_hash();
		let mut want = m.clone();
		let ok = want.apply(op).is_some();
		let r = exec(op);
		let kind = format!("{op:?}").split([' ', '{', '(']).next().unwrap().to_string();
		if let Err(e) = &r {
			req!(shim::ext::state_hash() == h, "atomicity: refused {kind} ({e}) changed the state");
		}
		match (&r, ok) {
			(Ok(()), false) => return Err(format!("admission: {kind} was accepted but must be refused")),
			(Err(e), true) => return Err(format!("admission: {kind} was refused with {e} but must succeed")),
			(Ok(()), true) => *m = want,
			_ => {},
		}
		check(m)?;
		Ok(format!("{kind}: {}", r.err().unwrap_or("ok".into())))
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)
	}
}
fn run(c: &mut Ctx, f: Focus, d: (usize, usize), rich: (usize, usize)) {
	c.assume("three offers per token, three holders per SFT and four tokens per listing, so that the limits are reached within the depth");
	let b = c.pick(d.0, d.1);
	c.bfs("focused alphabet", &S(f, false), depth(b));
	let b = c.pick(rich.0, rich.1);
	c.bfs("full alphabet", &S(f, true), depth(b));
}
fn main() {
	explore::main(&[
		("M01", |c| run(c, Focus::Fixed, (3, 4), (2, 3))),
		("M02", |c| run(c, Focus::Auction, (3, 4), (2, 3))),
		("M03", |c| run(c, Focus::Offers, (3, 4), (2, 3))),
		("M04", |c| run(c, Focus::Fees, (3, 4), (2, 3))),
	]);
}
