//! Lock-step exploration of the crowdsale pallet over the real NFT and multi-currency pallets.
use explore::*;
use frame_support::traits::{
	fungibles::{Inspect, Mutate},
	Hooks,
};
use pallet_crowdsale::types::SaleStatus;
pub use seed_pallet_common::test_prelude::*;
use seed_pallet_common::*;
use seed_primitives::{CrossChainCompatibility, OriginChain};
use sp_runtime::BoundedVec;
use std::collections::{BTreeMap, BTreeSet};
construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
		Crowdsale: pallet_crowdsale,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
/// Sales that may end in one block, and be in distribution at a time: one each, two each in a part of its own.
static AT_ONCE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
fn at_once() -> usize {
	AT_ONCE.load(std::sync::atomic::Ordering::SeqCst)
}
pub struct AtOnce;
impl sp_runtime::traits::Get<u32> for AtOnce {
	fn get() -> u32 {
		at_once() as u32
	}
}
const PAYMENTS: usize = 2;
const MAX_DUR: u64 = 3;
parameter_types! {
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub const MaxTokensPerCollection: u32 = 20_000;
	pub const MintLimit: u32 = 20_000;
	pub const StringLimit: u32 = 50;
	pub const CrowdSalePalletId: PalletId = PalletId(*b"crowdsal");
	pub const MaxPaymentsPerBlock: u32 = PAYMENTS as u32;
	pub const MaxSaleDuration: u64 = MAX_DUR;
	pub const UnsignedInterval: u32 = 10;
}
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = ();
	type OnNewAssetSubscription = ();
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type Xls20MintRequest = ();
	type NFIRequest = ();
}
type Extrinsic = sp_runtime::testing::TestXt<RuntimeCall, ()>;
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test
where
	RuntimeCall: From<C>,
{
	type OverarchingCall = RuntimeCall;
	type Extrinsic = Extrinsic;
}
/// Like the runtime's: only the collection's appearance may be changed through a vault.
pub struct Validator;
impl ExtrinsicChecker for Validator {
	type Call = RuntimeCall;
	type Extra = ();
	type Result = DispatchResult;
	fn check_extrinsic(call: &RuntimeCall, _: &()) -> DispatchResult {
		match call {
			RuntimeCall::Nft(pallet_nft::Call::set_name { .. }) => Ok(()),
			_ => Err(pallet_crowdsale::Error::<Test>::ExtrinsicForbidden.into()),
		}
	}
}
impl pallet_crowdsale::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type PalletId = CrowdSalePalletId;
	type StringLimit = StringLimit;
	type ProxyCallValidator = Validator;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type MaxSalesPerBlock = AtOnce;
	type MaxConsecutiveSales = AtOnce;
	type MaxPaymentsPerBlock = MaxPaymentsPerBlock;
	type MaxSaleDuration = MaxSaleDuration;
	type UnsignedInterval = UnsignedInterval;
	type WeightInfo = ();
}
fn call(f: impl FnOnce() -> DispatchResult) -> Result<(), String> {
	frame_support::storage::with_storage_layer(f).map_err(|e| {
		let s = format!("{e:?}");
		s.split("message: Some(\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or(&s).to_string()
	})
}
const U: u128 = 1_000_000; // one voucher
const A: AssetId = 7;
const X: AssetId = XRP_ASSET_ID;
/// Accounts from `VAULT` on are the sale vaults.
const VAULT: usize = 100;
fn acc(i: usize) -> AccountId {
	if i >= VAULT {
		return pallet_crowdsale::SaleInfo::<Test>::get((i - VAULT) as u64).map(|s| s.vault).unwrap_or(create_account(5555));
	}
	create_account(60 + i as u64)
}
const COLLS: [(usize, Option<u32>); 4] = [(0, Some(3)), (0, Some(2)), (1, Some(1)), (0, None)];
fn cid(i: usize) -> u32 {
	((i as u32 + 1) << 10) | 100
}
#[derive(Clone, Copy, Hash, Debug, PartialEq)]
enum St {
	Pending,
	Enabled(u64), // end block
	Distributing,
	Ended,
	Failed,
}
#[derive(Clone, Hash, Debug)]
struct Sale {
	st: St,
	admin: usize,
	asset: AssetId,
	coll: usize,
	soft: u128,
	dur: u64,
	raised: u128,
	people: BTreeSet<usize>,
	contrib: BTreeMap<usize, u128>,
	/// Vouchers, by account; the vault's are under `VAULT`.
	v: BTreeMap<usize, u128>,
}
#[derive(Clone, Hash, Debug)]
struct Coll {
	owner: usize,
	max: Option<u32>,
	public: bool,
	name: u8,
	tok: Vec<usize>,
}
#[derive(Clone, Hash, Debug)]
struct M {
	now: u64,
	bal: BTreeMap<(AssetId, usize), u128>,
	sales: Vec<Sale>,
	colls: Vec<Coll>,
	queue: Vec<usize>,
}
#[derive(Clone, Debug)]
enum Op {
	Init { who: usize, asset: AssetId, coll: usize, soft: u128, dur: u64 },
	Enable { who: usize, id: usize },
	Join { who: usize, id: usize, q: u128 },
	Distribute { signed: bool },
	Claim { who: usize, id: usize },
	Redeem { who: usize, id: usize, n: u32 },
	Proxy { who: usize, id: usize, what: u8 },
	Force { who: usize, id: usize },
	Give { who: usize, id: usize, q: u128, to: usize },
	Mint { who: usize, coll: usize, n: u32 },
	Public { who: usize, coll: usize, on: bool },
	Wait(u64),
}
impl Sale {
	/// The vouchers a contribution is worth: at the soft cap price, or a proportional share of all of them
	/// if that would be more than there are.
	fn worth(&self, c: u128, max: u32) -> u128 {
		let max = max as u128;
		if self.raised > self.soft * max {
			c * U * max / self.raised
		} else {
			c * U / self.soft
		}
	}
	fn vault(&self) -> u128 {
		self.v.get(&VAULT).cloned().unwrap_or(0)
	}
	fn shift(&mut self, from: usize, to: usize, q: u128) -> Option<()> {
		let f = self.v.entry(from).or_default();
		*f = f.checked_sub(q)?;
		if *f == 0 {
			self.v.remove(&from);
		}
		if q > 0 {
			*self.v.entry(to).or_default() += q;
		}
		Some(())
	}
}
impl M {
	fn b(&self, a: AssetId, w: usize) -> u128 {
		self.bal.get(&(a, w)).cloned().unwrap_or(0)
	}
	fn pay(&mut self, a: AssetId, from: usize, to: usize, q: u128) -> Option<()> {
		let f = self.bal.entry((a, from)).or_default();
		*f = f.checked_sub(q)?;
		*self.bal.entry((a, to)).or_default() += q;
		Some(())
	}
	fn max(&self, id: usize) -> u32 {
		self.colls[self.sales[id].coll].max.unwrap()
	}
	/// One contributor gets what is due.
	fn give(&mut self, id: usize, who: usize) {
		let max = self.max(id);
		let s = &mut self.sales[id];
		let c = s.contrib.remove(&who).unwrap();
		let q = s.worth(c, max);
		s.shift(VAULT, who, q).expect("the vouchers due are never more than the vault has");
	}
	fn finish(&mut self, id: usize) {
		let s = &mut self.sales[id];
		let left = s.vault();
		let admin = s.admin;
		s.shift(VAULT, admin, left).unwrap();
		s.st = St::Ended;
		self.queue.retain(|x| *x != id);
	}
	fn close(&mut self) {
		for id in 0..self.sales.len() {
			if self.sales[id].st != St::Enabled(self.now) {
				continue;
			}
			let max = self.max(id);
			let (asset, raised, admin) = (self.sales[id].asset, self.sales[id].raised, self.sales[id].admin);
			self.pay(asset, VAULT + id, admin, raised).expect("the vault has what was raised");
			let room = self.queue.len() < at_once();
			let s = &mut self.sales[id];
			let back = (max as u128 * U).saturating_sub(raised * U / s.soft);
			s.shift(VAULT, admin, back).unwrap();
			s.st = if raised == 0 {
				St::Ended
			} else if room {
				self.queue.push(id);
				St::Distributing
			} else {
				St::Failed
			};
		}
	}
	/// `paid`: for a distribution, who was paid (the order among contributors is not specified).
	fn apply(&mut self, op: &Op, paid: &[usize]) -> Option<()> {
		match op {
			Op::Init { who, asset, coll, soft, dur } => {
				let c = self.colls.get_mut(*coll)?;
				if c.owner != *who || c.max.is_none() || !c.tok.is_empty() || c.public || *soft == 0 || *dur == 0 || *dur > MAX_DUR || ![A, X].contains(asset) {
					return None;
				}
				let id = self.sales.len();
				c.owner = VAULT + id;
				let all = c.max.unwrap() as u128 * U;
				self.sales.push(Sale { st: St::Pending, admin: *who, asset: *asset, coll: *coll, soft: *soft, dur: *dur, raised: 0, people: Default::default(), contrib: Default::default(), v: [(VAULT, all)].into() });
			},
			Op::Enable { who, id } => {
				let s = self.sales.get(*id)?;
				let end = self.now + s.dur;
				let same = self.sales.iter().filter(|s| s.st == St::Enabled(end)).count();
				if s.st != St::Pending || s.admin != *who || same == at_once() {
					return None;
				}
				self.sales[*id].st = St::Enabled(end);
			},
			Op::Join { who, id, q } => {
				let s = self.sales.get_mut(*id)?;
				if !matches!(s.st, St::Enabled(_)) || *q == 0 {
					return None;
				}
				s.raised += q;
				*s.contrib.entry(*who).or_default() += q;
				s.people.insert(*who);
				let a = s.asset;
				self.pay(a, *who, VAULT + *id, *q)?;
			},
			Op::Distribute { signed } => {
				let id = *self.queue.first()?;
				if *signed {
					return None;
				}
				for w in paid {
					self.give(id, *w);
				}
				if self.sales[id].contrib.is_empty() {
					self.finish(id);
				}
			},
			Op::Claim { who, id } => {
				let s = self.sales.get(*id)?;
				if s.st != St::Distributing || !s.contrib.contains_key(who) {
					return None;
				}
				self.give(*id, *who);
				if self.sales[*id].contrib.is_empty() {
					self.finish(*id);
				}
			},
			Op::Redeem { who, id, n } => {
				let s = self.sales.get_mut(*id)?;
				if !matches!(s.st, St::Distributing | St::Ended) || *n == 0 {
					return None;
				}
				let q = *n as u128 * U;
				let b = s.v.get_mut(who)?;
				*b = b.checked_sub(q)?;
				if *b == 0 {
					s.v.remove(who);
				}
				let c = &mut self.colls[s.coll];
				c.tok.extend((0..*n).map(|_| *who));
				assert!(c.tok.len() as u32 <= c.max.unwrap(), "vouchers for more tokens than there are");
			},
			Op::Proxy { who, id, what } => {
				let s = self.sales.get(*id)?;
				if s.admin != *who || *what > 1 {
					return None;
				}
				self.colls[s.coll].name = *what + 1;
			},
			Op::Force { id, .. } => {
				let s = self.sales.get_mut(*id)?;
				if s.st != St::Failed || self.queue.len() >= at_once() {
					return None;
				}
				s.st = St::Distributing;
				self.queue.push(*id);
			},
			Op::Give { who, id, q, to } => {
				self.sales.get_mut(*id)?.shift(*who, *to, *q)?;
			},
			Op::Mint { who, coll, n } => {
				let c = self.colls.get_mut(*coll)?;
				if c.owner != *who && !c.public || c.max.map_or(false, |m| c.tok.len() as u32 + n > m) {
					return None;
				}
				c.tok.extend((0..*n).map(|_| *who));
			},
			Op::Public { who, coll, on } => {
				let c = self.colls.get_mut(*coll)?;
				if c.owner != *who {
					return None;
				}
				c.public = *on;
			},
			Op::Wait(n) => {
				for _ in 0..*n {
					self.now += 1;
					self.close();
				}
			},
		}
		Some(())
	}
}
fn voucher(id: usize) -> AssetId {
	pallet_crowdsale::SaleInfo::<Test>::get(id as u64).map(|s| s.voucher_asset_id).unwrap_or(9999)
}
fn exec(op: &Op) -> Result<(), String> {
	let s = |w: &usize| RuntimeOrigin::signed(acc(*w));
	let bv = |n: &str| BoundedVec::truncate_from(n.as_bytes().to_vec());
	call(|| match op {
		Op::Init { who, asset, coll, soft, dur } => Crowdsale::initialize(s(who), *asset, cid(*coll), *soft, *dur, None, None),
		Op::Enable { who, id } => Crowdsale::enable(s(who), *id as u64),
		Op::Join { who, id, q } => Crowdsale::participate(s(who), *id as u64, *q),
		Op::Distribute { signed } => Crowdsale::distribute_crowdsale_rewards(if *signed { s(&0) } else { RuntimeOrigin::none() }),
		Op::Claim { who, id } => Crowdsale::claim_voucher(s(who), *id as u64),
		Op::Redeem { who, id, n } => Crowdsale::redeem_voucher(s(who), *id as u64, *n),
		Op::Proxy { who, id, what } => {
			let collection_id = pallet_crowdsale::SaleInfo::<Test>::get(*id as u64).map(|s| s.reward_collection_id).unwrap_or(0);
			let c: RuntimeCall = match what {
				0 | 1 => pallet_nft::Call::set_name { collection_id, name: bv(["n1", "n2"][*what as usize]) }.into(),
				2 => pallet_nft::Call::mint { collection_id, quantity: 1, token_owner: None }.into(),
				3 => pallet_nft::Call::set_owner { collection_id, new_owner: acc(*who) }.into(),
				_ => pallet_assets::Call::transfer { id: voucher(*id), target: acc(*who), amount: 1 }.into(),
			};
			Crowdsale::proxy_vault_call(s(who), *id as u64, Box::new(c))
		},
		Op::Force { who, id } => Crowdsale::try_force_distribution(s(who), *id as u64),
		Op::Give { who, id, q, to } => Assets::transfer(s(who), voucher(*id), acc(*to), *q),
		Op::Mint { who, coll, n } => Nft::mint(s(who), cid(*coll), *n, None),
		Op::Public { who, coll, on } => Nft::toggle_public_mint(s(who), cid(*coll), *on),
		Op::Wait(n) => {
			for _ in 0..*n {
				System::set_block_number(System::block_number() + 1);
				<Crowdsale as Hooks<u64>>::on_initialize(System::block_number());
			}
			Ok(())
		},
	})
}
const PEOPLE: usize = 4;
fn check(m: &M) -> Check {
	use pallet_crowdsale as pc;
	for a in [A, X] {
		for i in (0..PEOPLE).chain((0..m.sales.len()).map(|x| VAULT + x)) {
			let b = AssetsExt::balance(a, &acc(i));
			req!(b == m.b(a, i), "payment: account {i} has {b} of asset {a}, expected {}", m.b(a, i));
		}
	}
	for (i, c) in m.colls.iter().enumerate() {
		let g = pallet_nft::CollectionInfo::<Test>::get(cid(i)).unwrap();
		req!(g.owner == acc(c.owner), "collection {i}: belongs to {:?}, expected {}", g.owner, c.owner);
		req!(g.collection_issuance as usize == c.tok.len() && g.next_serial_number as usize == c.tok.len(), "collection {i}: {} tokens were issued, expected {}", g.collection_issuance, c.tok.len());
		req!(g.name.to_vec() == format!("n{}", c.name).into_bytes(), "collection {i}: is named {:?}", g.name);
		let mut own: Vec<(AccountId, u32)> = g.owned_tokens.iter().flat_map(|o| o.owned_serials.iter().map(|s| (o.owner, *s))).collect();
		own.sort_by_key(|x| x.1);
		req!(own.len() == c.tok.len() && own.iter().zip(&c.tok).enumerate().all(|(s, (o, w))| *o == (acc(*w), s as u32)), "collection {i}: token owners are {own:?}, expected {:?}", c.tok);
		let p = pallet_nft::PublicMintInfo::<Test>::get(cid(i)).map_or(false, |p| p.enabled);
		req!(p == c.public, "collection {i}: public mint is {p}");
	}
	req!(pc::NextSaleId::<Test>::get() as usize == m.sales.len(), "ids: next sale id is wrong");
	req!(pc::SaleInfo::<Test>::iter().count() == m.sales.len(), "sales: {} are stored, expected {}", pc::SaleInfo::<Test>::iter().count(), m.sales.len());
	for (id, s) in m.sales.iter().enumerate() {
		let g = pc::SaleInfo::<Test>::get(id as u64).unwrap();
		let same = matches!(
			(&g.status, s.st),
			(SaleStatus::Pending(_), St::Pending) | (SaleStatus::Enabled(_), St::Enabled(_)) | (SaleStatus::Distributing(..), St::Distributing) | (SaleStatus::Ended(_), St::Ended) | (SaleStatus::DistributionFailed(_), St::Failed)
		);
		req!(same, "status: sale {id} is {:?} at block {}, expected {:?}", g.status, m.now, s.st);
		req!(g.admin == acc(s.admin) && g.payment_asset_id == s.asset && g.reward_collection_id == cid(s.coll) && g.soft_cap_price == s.soft && g.duration == s.dur, "terms: sale {id} is {g:?}, expected {s:?}");
		req!(g.funds_raised == s.raised, "funds: sale {id} raised {}, expected {}", g.funds_raised, s.raised);
		req!(g.participant_count as usize == s.people.len(), "participants: {} are counted in sale {id}, expected {}", g.participant_count, s.people.len());
		let contrib: BTreeMap<AccountId, u128> = pc::SaleParticipation::<Test>::iter_prefix(id as u64).collect();
		let want: BTreeMap<AccountId, u128> = s.contrib.iter().map(|x| (acc(*x.0), *x.1)).collect();
		req!(contrib == want, "contributions: sale {id} records {contrib:?}, expected {want:?}");
		let mut sum = 0;
		for i in (0..PEOPLE).chain([VAULT]) {
			let b = Assets::balance(g.voucher_asset_id, if i == VAULT { g.vault } else { acc(i) });
			let w = s.v.get(&i).cloned().unwrap_or(0);
			req!(b == w, "vouchers: account {i} has {b} of sale {id}, expected {w}");
			sum += b;
		}
		let c = &m.colls[s.coll];
		req!(sum == Assets::total_supply(g.voucher_asset_id), "vouchers: {sum} of sale {id} are with the accounts, {} exist", Assets::total_supply(g.voucher_asset_id));
		req!(sum + c.tok.len() as u128 * U == c.max.unwrap() as u128 * U, "backing: {sum} vouchers of sale {id} and {} tokens of at most {:?}", c.tok.len(), c.max);
		let due: u128 = s.contrib.values().map(|c| s.worth(*c, m.max(id))).sum();
		if !matches!(s.st, St::Enabled(_)) {
			req!(due <= s.vault(), "shares: {due} vouchers of sale {id} are due, the vault has {}", s.vault());
		}
		if let St::Enabled(end) = s.st {
			req!(end > m.now, "closing: sale {id} should have closed in block {end}, now is {}", m.now);
		}
	}
	let q: Vec<usize> = pc::SaleDistribution::<Test>::get().iter().map(|x| *x as usize).collect();
	req!(q == m.queue, "queue: {q:?} are being distributed, expected {:?}", m.queue);
	let ends: BTreeSet<(u64, u64)> = pc::SaleEndBlocks::<Test>::iter().flat_map(|(b, v)| v.into_iter().map(move |s| (b, s))).collect();
	let want: BTreeSet<(u64, u64)> = m.sales.iter().enumerate().filter_map(|(i, s)| if let St::Enabled(e) = s.st { Some((e, i as u64)) } else { None }).collect();
	req!(ends == want, "schedule: sales end at {ends:?}, expected {want:?}");
	Ok(())
}
#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Funds,
	Vouchers,
	Tokens,
}
struct S(Focus, bool);
fn genesis(money: &[u128]) -> M {
	System::set_block_number(1);
	pallet_nft::NextCollectionId::<Test>::put(1);

	let mut m = M { now: 1, bal: Default::default(), sales: vec![], colls: vec![], queue: vec![] };
	for a in [A, X] {
		Assets::force_create(RuntimeOrigin::root(), a, acc(9), true, 1).unwrap();
		for (w, q) in money.iter().enumerate().filter(|x| *x.1 > 0) {
			AssetsExt::mint_into(a, &acc(w), *q).unwrap();
			m.bal.insert((a, w), *q);
		}
	}
	for (owner, max) in COLLS {
		let uri = MetadataScheme::try_from(b"https://a/".as_slice()).unwrap();
		Nft::do_create_collection(acc(owner), BoundedVec::truncate_from(b"n0".to_vec()), 0, max, None, uri, None, OriginChain::Root, CrossChainCompatibility { xrpl: false }).unwrap();
		m.colls.push(Coll { owner, max, public: false, name: 0, tok: vec![] });
	}
	m
}
fn both(m: &mut M, op: Op) {
	let r = lockstep(m, &op);
	assert!(matches!(&r, Ok(Ok(()))), "setup {op:?}: {r:?}");
}
/// Outer error: violation; inner: the (legal) refusal.
fn lockstep(m: &mut M, op: &Op) -> Result<Result<(), String>, String> {
	let h = shim::ext::state_hash();
	let kind = format!("{op:?}").split([' ', '{', '(']).next().unwrap().to_string();
	let r = exec(op);
	let mut paid = vec![];
	if let (Op::Distribute { .. }, Ok(()), Some(id)) = (op, &r, m.queue.first()) {
		paid = m.sales[*id].contrib.keys().cloned().filter(|w| !pallet_crowdsale::SaleParticipation::<Test>::contains_key(*id as u64, acc(*w))).collect();
		let want = m.sales[*id].contrib.len().min(PAYMENTS);
		req!(paid.len() == want, "distribution: {} contributors were served, expected {want}", paid.len());
	}
	let mut want = m.clone();
	let ok = want.apply(op, &paid).is_some();
	if let Err(e) = &r {
		req!(shim::ext::state_hash() == h, "atomicity: refused {kind} ({e}) changed the state");
	}
	match (&r, ok) {
		(Ok(()), false) => return Err(format!("admission: {kind} was accepted but must be refused")),
		(Err(e), true) => return Err(format!("admission: {kind} was refused with {e} but must succeed")),
		(Ok(()), true) => *m = want,
		_ => {},
	}
	check(m)?;
	Ok(r)
}
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		if at_once() == 2 {
			2
		} else {
			4
		}
	}
	fn init(&self, i: usize) -> M {
		let mut m = genesis(&[0, 30, 30, 4]);
		let m2 = &mut m;
		match i {
			_ if at_once() == 2 => {
				// two sales that end together with three contributors each, and a third still open
				both(m2, Op::Init { who: 0, asset: A, coll: 0, soft: 3, dur: 1 });
				both(m2, Op::Init { who: 1, asset: X, coll: 2, soft: 5, dur: 1 });
				both(m2, Op::Init { who: 0, asset: A, coll: 1, soft: 5, dur: 2 });
				for id in 0..3 {
					both(m2, Op::Enable { who: if id == 1 { 1 } else { 0 }, id });
					for who in 1..4 {
						both(m2, Op::Join { who, id, q: if who == 3 { 1 } else { 6 + who as u128 + id as u128 } });
					}
				}
				both(m2, Op::Wait(1));
				if i == 1 {
					both(m2, Op::Claim { who: 2, id: 1 });
					both(m2, Op::Claim { who: 1, id: 0 });
				}
			},
			0 => {},
			1 => {
				both(m2, Op::Init { who: 0, asset: A, coll: 0, soft: 3, dur: 2 });
				both(m2, Op::Init { who: 1, asset: X, coll: 2, soft: 7, dur: 1 });
				both(m2, Op::Enable { who: 0, id: 0 });
			},
			2 => {
				// over-subscribed with three contributors, a second sale still open
				both(m2, Op::Init { who: 0, asset: A, coll: 0, soft: 3, dur: 1 });
				both(m2, Op::Init { who: 0, asset: X, coll: 1, soft: 5, dur: 3 });
				both(m2, Op::Enable { who: 0, id: 0 });
				both(m2, Op::Enable { who: 0, id: 1 });
				both(m2, Op::Join { who: 1, id: 0, q: 20 });
				both(m2, Op::Join { who: 2, id: 0, q: 7 });
				both(m2, Op::Join { who: 3, id: 0, q: 1 });
				both(m2, Op::Join { who: 2, id: 1, q: 8 });
				both(m2, Op::Wait(1));
			},
			_ => {
				// under-subscribed, one contributor served; a second one whose distribution failed
				both(m2, Op::Init { who: 0, asset: A, coll: 0, soft: 6, dur: 2 });
				both(m2, Op::Init { who: 1, asset: X, coll: 2, soft: 1, dur: 3 });
				both(m2, Op::Enable { who: 0, id: 0 });
				both(m2, Op::Enable { who: 1, id: 1 });
				both(m2, Op::Join { who: 1, id: 0, q: 7 });
				both(m2, Op::Join { who: 2, id: 0, q: 2 });
				both(m2, Op::Join { who: 2, id: 0, q: 4 });
				both(m2, Op::Join { who: 3, id: 1, q: 1 });
				both(m2, Op::Wait(3));
				both(m2, Op::Claim { who: 1, id: 0 });
			},
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let (f, rich) = (self.0, self.1);
		let mut v = vec![];
		let n = m.sales.len();
		if (f == Focus::Funds || rich) && n < 3 {
			for who in 0..2 {
				for coll in 0..5 {
					v.push(Op::Init { who, asset: A, coll, soft: 3, dur: 1 });
				}
				for (asset, soft, dur) in [(A, 0, 1), (9, 1, 1), (A, 1, 0), (A, 1, MAX_DUR + 1), (X, 2, MAX_DUR)] {
					v.push(Op::Init { who, asset, coll: if who == 0 { 1 } else { 2 }, soft, dur });
				}
			}
		}
		for id in 0..n + 1 {
			if f == Focus::Funds || rich {
				for who in 0..2 {
					v.push(Op::Enable { who, id });
					v.push(Op::Force { who: who + 2, id });
				}
			}
			for who in [1, 2, 3, 0] {
				for q in [0, 1, 4, 5, 30] {
					v.push(Op::Join { who, id, q });
				}
			}
			if f != Focus::Funds || rich {
				for who in 0..PEOPLE {
					v.push(Op::Claim { who, id });
				}
				v.push(Op::Force { who: 3, id });
			}
			if f == Focus::Tokens || rich {
				for who in 0..PEOPLE {
					for k in [0, 1, 2, 3] {
						v.push(Op::Redeem { who, id, n: k });
					}
					v.push(Op::Redeem { who, id, n: u32::MAX });
				}
				for (who, to, q) in [(0, 1, 500_000), (2, 1, 333_334), (1, 2, 1), (3, 2, 166_667)] {
					v.push(Op::Give { who, id, q, to });
				}
				for who in 0..2 {
					for what in 0..5 {
						v.push(Op::Proxy { who, id, what });
					}
				}
			}
		}
		if f == Focus::Tokens || rich {
			for coll in 0..3 {
				for who in 0..2 {
					v.push(Op::Mint { who, coll, n: 1 });
					v.push(Op::Public { who, coll, on: true });
				}
				v.push(Op::Public { who: 0, coll, on: false });
			}
		}
		v.push(Op::Distribute { signed: false });
		v.push(Op::Distribute { signed: true });
		v.push(Op::Wait(1));
		v.push(Op::Wait(2));
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let kind = format!("{op:?}").split([' ', '{', '(']).next().unwrap().to_string();
		let r = lockstep(m, op)?;
		Ok(format!("{kind}: {}", r.err().unwrap_or("ok".into())))
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)
	}
}
fn run(c: &mut Ctx, f: Focus, d: (usize, usize), rich: (usize, usize)) {
	c.assume("one sale may end per block, one be in distribution at a time, two contributors are served per distribution and a sale lasts at most three blocks, so that every limit is reached within the depth");
	let b = c.pick(d.0, d.1);
	c.bfs("focused alphabet", &S(f, false), depth(b));
	let b = c.pick(rich.0, rich.1);
	c.bfs("full alphabet", &S(f, true), depth(b));
	AT_ONCE.store(2, std::sync::atomic::Ordering::SeqCst);
	c.bfs("two sales at a time", &S(f, false), depth(d.0));
	AT_ONCE.store(1, std::sync::atomic::Ordering::SeqCst);
}
fn shares(c: &mut Ctx) {
	let top = c.pick(4u128, 7);
	let mut cases = vec![];
	for coll in [0usize, 1, 2] {
		for soft in [1u128, 2, 3, 7] {
			for a in 0..=top {
				for b in 0..=top {
					for d in [0, 1, 2, 5, 19] {
						for order in 0..4u8 {
							cases.push((coll, soft, [a, b, d], order));
						}
					}
				}
			}
		}
	}
	// a contribution too small for the smallest fraction of a voucher
	for q in [[1, 0, 0], [1, 4, 0], [2, 1, 30], [0, 3, 1]] {
		for soft in [3_000_000, 1_000_000_000] {
			cases.push((0, soft, q, 0));
		}
	}
	c.enumerate("complete sales: collection size, price, contributions, way of distribution", cases.into_iter(), |(coll, soft, q, order)| {
		let mut m = genesis(&[0, 30, 30, 30]);
		let owner = COLLS[*coll].0;
		let go = |m: &mut M, op: Op| -> Check { lockstep(m, &op).and_then(|r| r.map_err(|e| format!("admission: {op:?} was refused with {e}"))) };
		go(&mut m, Op::Init { who: owner, asset: A, coll: *coll, soft: *soft, dur: 1 })?;
		go(&mut m, Op::Enable { who: owner, id: 0 })?;
		for (i, q) in q.iter().enumerate().filter(|x| *x.1 > 0) {
			go(&mut m, Op::Join { who: i + 1, id: 0, q: *q })?;
		}
		go(&mut m, Op::Wait(1))?;
		let who: Vec<usize> = (0..3).filter(|i| q[*i] > 0).map(|i| i + 1).collect();
		match order {
			0 => (0..who.len().div_ceil(PAYMENTS)).try_for_each(|_| go(&mut m, Op::Distribute { signed: false }))?,
			1 => who.iter().try_for_each(|w| go(&mut m, Op::Claim { who: *w, id: 0 }))?,
			2 => who.iter().rev().try_for_each(|w| go(&mut m, Op::Claim { who: *w, id: 0 }))?,
			_ => {
				if let Some(w) = who.first() {
					go(&mut m, Op::Claim { who: *w, id: 0 })?;
				}
				(0..who.len().saturating_sub(1).div_ceil(PAYMENTS)).try_for_each(|_| go(&mut m, Op::Distribute { signed: false }))?;
			},
		}
		req!(m.sales[0].st == St::Ended, "status: the sale did not end");
		// everyone redeems all their whole vouchers, except that two halves of one are not enough
		for w in 0..PEOPLE {
			let n = (m.sales[0].v.get(&w).cloned().unwrap_or(0) / U) as u32;
			if n > 0 {
				let r = lockstep(&mut m, &Op::Redeem { who: w, id: 0, n })?;
				req!(r.is_ok(), "admission: redemption was refused with {r:?}");
			}
			let r = lockstep(&mut m, &Op::Redeem { who: w, id: 0, n: 1 })?;
			req!(r.is_err(), "admission: redeemed a fraction");
		}
		Ok(format!("redeemed {}", m.colls[*coll].tok.len()))
	});
}
fn large(c: &mut Ctx) {
	let sizes: Vec<u32> = c.pick(vec![1, 1000, 4294, 4295, 4296, 9000], (1..40).map(|x| x * 300).chain(4290..4300).collect());
	c.enumerate("redeeming many vouchers at once", sizes.into_iter(), |n| {
		let mut m = genesis(&[0, 30, 30_000, 30]);
		let uri = MetadataScheme::try_from(b"https://a/".as_slice()).unwrap();
		Nft::do_create_collection(acc(0), BoundedVec::truncate_from(b"n0".to_vec()), 0, Some(12_000), None, uri, None, OriginChain::Root, CrossChainCompatibility { xrpl: false }).unwrap();
		m.colls.push(Coll { owner: 0, max: Some(12_000), public: false, name: 0, tok: vec![] });
		let go = |m: &mut M, op: Op| -> Check { lockstep(m, &op).and_then(|r| r.map_err(|e| format!("admission: {op:?} was refused with {e}"))) };
		go(&mut m, Op::Init { who: 0, asset: A, coll: 4, soft: 1, dur: 1 })?;
		go(&mut m, Op::Enable { who: 0, id: 0 })?;
		go(&mut m, Op::Join { who: 2, id: 0, q: 30_000 })?;
		go(&mut m, Op::Wait(1))?;
		go(&mut m, Op::Claim { who: 2, id: 0 })?;
		go(&mut m, Op::Redeem { who: 2, id: 0, n: *n })?;
		Ok("redeemed".into())
	});
}
fn main() {
	explore::main(&[
		("W01", |c| run(c, Focus::Funds, (4, 6), (2, 3))),
		("W02", |c| {
			run(c, Focus::Vouchers, (4, 7), (2, 3));
			shares(c);
		}),
		("W03", |c| {
			run(c, Focus::Tokens, (3, 5), (2, 3));
			large(c);
		}),
	]);
}
