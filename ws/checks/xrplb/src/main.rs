//! Lock-step exploration of the XRPL bridge over the real XLS-20, NFT and multi-currency pallets. The signing
//! service is replaced by a recorder; what it is asked to sign is decoded here, independently of the codec.
use explore::*;
use frame_support::storage::unhashed;
use frame_support::traits::{
	fungibles::{Inspect, Mutate},
	Hooks,
};
use frame_support::weights::Weight;
use pallet_xrpl_bridge::types::*;
pub use seed_pallet_common::test_prelude::*;
use seed_pallet_common::*;
use seed_primitives::ethy::{crypto::AuthorityId, EventProofId};
use codec::Encode;
use sp_core::Get as _;
use sp_runtime::traits::AccountIdConversion;
use seed_primitives::xrpl::{XrplAccountId, XrplTxHash};
use seed_primitives::{CrossChainCompatibility, OriginChain};
use sp_runtime::{BoundedVec, Percent};
use std::collections::{BTreeMap, BTreeSet};
construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		TimestampPallet: pallet_timestamp,
		Nft: pallet_nft,
		Xls20: pallet_xls20,
		XRPLBridge: pallet_xrpl_bridge,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
impl_pallet_timestamp_config!(Test);
const CHALLENGE: u64 = 2;
const PER_BLOCK: usize = 2;
const PER_LEDGER: usize = 2;
const MAX_PRUNE: u32 = 2;
const MAX_DELAYED: usize = 2;
const BLOCK_LIMIT: u64 = 3;
parameter_types! {
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub const MaxTokensPerCollection: u32 = 10;
	pub const MintLimit: u32 = 10;
	pub const StringLimit: u32 = 50;
	pub const Xls20PalletId: PalletId = PalletId(*b"xls20nft");
	pub const MaxTokensPerXls20Mint: u32 = 4;
	pub const XrpTxChallengePeriod: u32 = CHALLENGE as u32;
	pub const TicketSequenceThreshold: Percent = Percent::from_percent(66_u8);
	pub const XRPTransactionLimit: u32 = PER_BLOCK as u32;
	pub const XRPLTransactionLimitPerLedger: u32 = PER_LEDGER as u32;
	pub const MaxPrunedTransactionsPerBlock: u32 = MAX_PRUNE;
	pub const MaxDelayedPaymentsPerBlock: u32 = MAX_DELAYED as u32;
	pub const DelayedPaymentBlockLimit: u64 = BLOCK_LIMIT;
	pub const XrpAssetId: u32 = XRP_ASSET_ID;
	pub const XrplPalletId: PalletId = PalletId(*b"xrpl-peg");
}
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = ();
	type OnNewAssetSubscription = ();
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type Xls20MintRequest = Xls20;
	type NFIRequest = ();
}
impl pallet_xls20::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type PalletId = Xls20PalletId;
	type MaxTokensPerXls20Mint = MaxTokensPerXls20Mint;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type NFTCollectionInfo = Nft;
	type NFTMinter = Nft;
	type WeightInfo = ();
	type Xls20PaymentAsset = XrpAssetId;
	type Migrator = ();
}
impl pallet_xrpl_bridge::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type EthyAdapter = Recorder;
	type MultiCurrency = AssetsExt;
	type ApproveOrigin = EnsureRoot<AccountId>;
	type WeightInfo = ();
	type XrpAssetId = XrpAssetId;
	type NativeAssetId = NativeAssetId;
	type PalletId = XrplPalletId;
	type ChallengePeriod = XrpTxChallengePeriod;
	type MaxPrunedTransactionsPerBlock = MaxPrunedTransactionsPerBlock;
	type MaxDelayedPaymentsPerBlock = MaxDelayedPaymentsPerBlock;
	type DelayedPaymentBlockLimit = DelayedPaymentBlockLimit;
	type UnixTime = TimestampPallet;
	type TicketSequenceThreshold = TicketSequenceThreshold;
	type XRPTransactionLimit = XRPTransactionLimit;
	type XRPLTransactionLimitPerLedger = XRPLTransactionLimitPerLedger;
	type NFTExt = Nft;
	type Xls20Ext = Xls20;
}
/// What is to be signed, in the storage so that it is undone with a refused call.
pub struct Recorder;
const BLOBS: &[u8] = b"blobs";
impl XrplBridgeToEthyAdapter<AuthorityId> for Recorder {
	fn sign_xrpl_transaction(tx: &[u8]) -> Result<EventProofId, DispatchError> {
		let mut v: Vec<Vec<u8>> = unhashed::get_or_default(BLOBS);
		v.push(tx.to_vec());
		unhashed::put(BLOBS, &v);
		Ok(v.len() as u64)
	}
	fn validators() -> Vec<AuthorityId> {
		vec![]
	}
	fn xrp_validators() -> Vec<AuthorityId> {
		vec![]
	}
}
fn call(f: impl FnOnce() -> DispatchResult) -> Result<(), String> {
	frame_support::storage::with_storage_layer(f).map_err(|e| {
		let s = format!("{e:?}");
		s.split("message: Some(\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or(&s).to_string()
	})
}
const ROOT: AssetId = ROOT_ASSET_ID;
const XRP: AssetId = XRP_ASSET_ID;
const A: AssetId = 7;
const B: AssetId = 9;
const ASSETS: [AssetId; 4] = [ROOT, XRP, A, B];
/// Accounts: 0, 1 users, 2 relayer, 3 another; `POOL` holds the bridged-out ROOT.
const POOL: usize = 9;
fn acc(i: usize) -> AccountId {
	if i == POOL {
		return XrplPalletId::get().into_account_truncating();
	}
	create_account(60 + i as u64)
}
fn h160(i: usize) -> H160 {
	H160(acc(i).0)
}
fn xrpl(i: u8) -> XrplAccountId {
	XrplAccountId::from([0xC0 + i; 20])
}
fn cur(i: u8) -> XRPLCurrency {
	match i {
		0 => XRPLCurrency { symbol: XRPLCurrencyType::Standard(*b"ABC"), issuer: xrpl(20) },
		1 => XRPLCurrency { symbol: XRPLCurrencyType::Standard(*b"ABC"), issuer: xrpl(21) },
		2 => XRPLCurrency { symbol: XRPLCurrencyType::NonStandard([0x61; 20]), issuer: xrpl(20) },
		_ => XRPLCurrency { symbol: XRPLCurrencyType::NonStandard([0; 20]), issuer: xrpl(20) },
	}
}
fn code(i: u8) -> [u8; 20] {
	match cur(i).symbol {
		XRPLCurrencyType::Standard(c) => {
			let mut b = [0; 20];
			b[12..15].copy_from_slice(&c);
			b
		},
		XRPLCurrencyType::NonStandard(c) => c,
	}
}
const DOORS: [XRPLDoorAccount; 2] = [XRPLDoorAccount::Main, XRPLDoorAccount::NFT];
/// The identifier of an XLS-20 token: flags, fee, issuer, scrambled taxon, sequence.
fn xls20(t: Token) -> [u8; 32] {
	let mut b = [0u8; 32];
	b[..2].copy_from_slice(&(8u16 | t.burnable as u16).to_be_bytes());
	b[2..4].copy_from_slice(&314u16.to_be_bytes());
	b[4..24].copy_from_slice(&[0x90 + t.issuer; 20]);
	let scrambled = t.taxon ^ 384160001u32.wrapping_mul(t.seq).wrapping_add(2459);
	b[24..28].copy_from_slice(&scrambled.to_be_bytes());
	b[28..].copy_from_slice(&t.seq.to_be_bytes());
	b
}
#[derive(Clone, Copy, Hash, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Token {
	issuer: u8,
	taxon: u32,
	seq: u32,
	burnable: bool,
}
fn tok(issuer: u8, taxon: u32, seq: u32) -> Token {
	Token { issuer, taxon, seq, burnable: false }
}
#[derive(Clone, Copy, Hash, Debug, PartialEq, Eq)]
enum Data {
	Xrp(u128, usize),
	Cur(u128, usize, u8),
	Nft(Token, usize),
}
fn hash(i: u8) -> XrplTxHash {
	XrplTxHash::from_low_u64_be(700 + i as u64)
}
fn cid(i: usize) -> u32 {
	((i as u32 + 1) << 10) | 100
}
/// What is to be signed.
#[derive(Clone, Hash, Debug, PartialEq)]
enum Out {
	/// asset, burned, decimals, to, tag, currency code and issuer
	Pay { asset: AssetId, q: u128, to: u8, tag: Option<u32>, cur: Option<([u8; 20], [u8; 20])>, ticket: u32, fee: u64 },
	Accept { offer: u8, ticket: u32, fee: u64 },
	Create { id: [u8; 32], to: u8, ticket: u32, fee: u64 },
	Signers { door: usize, n: u8, ticket: u32, fee: u64 },
}
#[derive(Clone, Hash, Debug, Default)]
struct Door {
	addr: Option<u8>,
	fee: u64,
	cur: u32,
	start: u32,
	size: u32,
	next: Option<(u32, u32)>,
	/// The highest ticket ever handed out, and in which of the buckets that were set.
	used: BTreeSet<u32>,
	buckets: BTreeSet<(u32, u32)>,
}
#[derive(Clone, Hash, Debug, Default)]
struct Coll {
	owner: usize,
	xrpl: bool,
	/// owner of each serial
	tok: BTreeMap<u32, usize>,
	next: u32,
	map: BTreeMap<u32, [u8; 32]>,
}
#[derive(Clone, Hash, Debug, Default)]
struct M {
	now: u64,
	bal: BTreeMap<(AssetId, usize), u128>,
	dec: BTreeMap<AssetId, u8>,
	relayers: BTreeSet<usize>,
	details: BTreeMap<u8, (u64, Data, usize)>,
	pending: BTreeMap<u64, Vec<u8>>,
	challenged: BTreeMap<u8, usize>,
	settled: BTreeMap<u32, Vec<u8>>,
	high: u32,
	window: u32,
	pruned: u32,
	a2c: BTreeMap<AssetId, u8>,
	c2a: BTreeMap<u8, AssetId>,
	tag: u32,
	doors: [Door; 2],
	delay: BTreeMap<AssetId, (u128, u64)>,
	schedule: BTreeMap<u64, Vec<u64>>,
	delayed: BTreeMap<u64, (usize, Out)>,
	next_delayed: u64,
	next_block: u64,
	colls: Vec<Coll>,
	keys: BTreeMap<(u8, u32), usize>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Idle {
	Ample,
	/// In units of one storage read and one write.
	Small(u64),
}
#[derive(Clone, Debug)]
enum Op {
	Submit { who: usize, ledger: u64, id: u8, d: Data },
	Challenge { who: usize, id: u8 },
	Relayer { root: bool, who: usize, on: bool },
	Map { root: bool, asset: AssetId, cur: Option<u8> },
	Prune { root: bool, ledger: u32 },
	Reset { root: bool, high: u32, window: u32, pruned: Option<u32>, tx: Option<(u8, u32)> },
	Withdraw { who: usize, asset: AssetId, q: u128, to: u8, tag: Option<u32>, old: bool },
	Delay { root: bool, asset: AssetId, d: Option<(u128, u64)> },
	Fee { root: bool, door: usize, fee: u64 },
	Tag { root: bool, tag: u32 },
	Addr { root: bool, door: usize, a: Option<u8> },
	Next { who: usize, door: usize, start: u32, size: u32 },
	Force { root: bool, door: usize, cur: u32, start: u32, size: u32 },
	Accept { who: usize, offer: u8 },
	Signers(u8),
	WithdrawNft { who: usize, coll: usize, serial: u32, to: u8 },
	Give { who: usize, coll: usize, serial: u32, to: usize },
	Mint { who: usize, coll: usize },
	Fulfil { who: usize, coll: usize, serial: u32, t: Token },
	Wait(Idle),
}
impl Door {
	fn take(&mut self) -> Option<u32> {
		let end = self.start.checked_add(self.size)?;
		if self.cur >= end {
			let (s, n) = self.next?;
			if s == self.start || s < self.cur {
				return None;
			}
			(self.cur, self.start, self.size, self.next) = (s, s, n, None);
		}
		let t = self.cur;
		self.cur = t.checked_add(1)?;
		self.used.insert(t);
		Some(t)
	}
}
impl M {
	fn b(&self, a: AssetId, w: usize) -> u128 {
		self.bal.get(&(a, w)).cloned().unwrap_or(0)
	}
	fn burn(&mut self, a: AssetId, w: usize, q: u128) -> Option<()> {
		let b = self.bal.entry((a, w)).or_default();
		*b = b.checked_sub(q)?;
		Some(())
	}
	fn mint(&mut self, a: AssetId, w: usize, q: u128) -> Option<()> {
		let all: u128 = self.bal.iter().filter(|x| x.0 .0 == a).map(|x| *x.1).sum();
		all.checked_add(q)?;
		*self.bal.entry((a, w)).or_default() += q;
		Some(())
	}
	fn credit(&mut self, d: Data) -> Option<()> {
		match d {
			Data::Xrp(q, to) => self.mint(XRP, to, q),
			Data::Cur(q, to, c) => {
				let a = *self.c2a.get(&c)?;
				if a == ROOT {
					self.burn(ROOT, POOL, q)?;
					*self.bal.entry((ROOT, to)).or_default() += q;
					Some(())
				} else {
					self.mint(a, to, q)
				}
			},
			Data::Nft(t, to) => {
				if t.burnable {
					return None;
				}
				let n = self.colls.len();
				let i = *self.keys.entry((t.issuer, t.taxon)).or_insert(n);
				if i == n {
					self.colls.push(Coll { owner: usize::MAX, xrpl: true, ..Default::default() });
				}
				let c = &mut self.colls[i];
				c.tok.entry(t.seq).or_insert(to);
				c.map.insert(t.seq, xls20(t));
				Some(())
			},
		}
	}
	fn open(&self) -> u32 {
		self.high.saturating_sub(self.window)
	}
	/// The amount that can be expressed on the XRPL.
	fn round(&self, asset: AssetId, q: u128) -> Option<u128> {
		if asset == XRP {
			return u64::try_from(q).ok().map(|_| q);
		}
		let d = *self.dec.get(&asset)?;
		let mut unit = 1;
		while q / unit > 9_999_999_999_999_999 {
			unit *= 10;
		}
		let r = q / unit * unit;
		(q - r < 10u128.checked_pow(d as u32)?).then_some(r)
	}
	/// Returns what is to be signed at once.
	fn apply(&mut self, op: &Op) -> Option<Vec<Out>> {
		let mut out = vec![];
		match op {
			Op::Submit { who, ledger, id, d } => {
				let known = if let Data::Cur(_, _, c) = d { self.c2a.contains_key(c) } else { true };
				let q = self.pending.entry(self.now + CHALLENGE).or_default();
				if !self.relayers.contains(who) || !known || *ledger < self.high.saturating_sub(self.window) as u64 || self.details.contains_key(id) || q.len() == PER_BLOCK {
					return None;
				}
				q.push(*id);
				self.details.insert(*id, (*ledger, *d, *who));
			},
			Op::Challenge { who, id } => {
				self.challenged.insert(*id, *who);
			},
			Op::Relayer { root, who, on } => {
				if !root || !on && !self.relayers.contains(who) {
					return None;
				}
				if *on {
					self.relayers.insert(*who);
				} else {
					self.relayers.remove(who);
				}
			},
			Op::Map { root, asset, cur } => {
				if !root {
					return None;
				}
				match cur {
					Some(3) => return None,
					Some(c) => {
						// one to one: an earlier partner of either is dropped
						if let Some(old) = self.a2c.remove(asset) {
							self.c2a.remove(&old);
						}
						if let Some(old) = self.c2a.remove(c) {
							self.a2c.remove(&old);
						}
						self.a2c.insert(*asset, *c);
						self.c2a.insert(*c, *asset);
					},
					None => {
						let c = self.a2c.remove(asset)?;
						self.c2a.remove(&c);
					},
				}
			},
			Op::Prune { root, ledger } => {
				if !root || *ledger >= self.open() {
					return None;
				}
				for id in self.settled.remove(ledger)? {
					self.details.remove(&id);
				}
			},
			Op::Reset { root, high, window, pruned, tx } => {
				if !root || pruned.map_or(false, |p| p > high.saturating_sub(*window)) {
					return None;
				}
				(self.high, self.window) = (*high, *window);
				self.pruned = pruned.unwrap_or(self.pruned);
				if let Some((id, ledger)) = tx {
					let l = self.settled.entry(*ledger).or_default();
					if l.len() == PER_LEDGER {
						return None;
					}
					l.push(*id);
					self.details.insert(*id, (*ledger as u64, Data::Xrp(5, 0), 2));
				}
			},
			Op::Withdraw { who, asset, q, to, tag, .. } => {
				if *q == 0 {
					return None;
				}
				let q = self.round(*asset, *q)?;
				self.doors[0].addr?;
				let fee = self.doors[0].fee;
				let mut cur = None;
				match *asset {
					XRP => self.burn(XRP, *who, q.checked_add(fee as u128)?)?,
					a => {
						let c = *self.a2c.get(&a)?;
						cur = Some((code(c), c));
						self.burn(XRP, *who, fee as u128)?;
						self.burn(a, *who, q)?;
						if a == ROOT {
							*self.bal.entry((ROOT, POOL)).or_default() += q;
						}
					},
				};
				let ticket = self.doors[0].take()?;
				let o = Out::Pay { asset: *asset, q, to: *to, tag: *tag, cur: cur.map(|(c, i)| (c, issuer(i))), ticket, fee };
				match self.delay.get(asset) {
					Some((min, d)) if q >= *min => {
						let s = self.schedule.entry(self.now.saturating_add(*d)).or_default();
						if s.len() == MAX_DELAYED {
							return None;
						}
						s.push(self.next_delayed);
						self.delayed.insert(self.next_delayed, (*who, o));
						self.next_delayed += 1;
					},
					_ => out.push(o),
				}
			},
			Op::Delay { root, asset, d } => {
				root.then_some(())?;
				match d {
					Some(d) => self.delay.insert(*asset, *d),
					None => self.delay.remove(asset),
				};
			},
			Op::Fee { root, door, fee } => {
				root.then_some(())?;
				self.doors[*door].fee = *fee;
			},
			Op::Tag { root, tag } => {
				root.then_some(())?;
				self.tag = *tag;
			},
			Op::Addr { root, door, a } => {
				root.then_some(())?;
				self.doors[*door].addr = *a;
			},
			Op::Next { who, door, start, size } => {
				let d = &mut self.doors[*door];
				if !self.relayers.contains(who) || *start < d.cur || *start < d.start || *size == 0 {
					return None;
				}
				d.next = Some((*start, *size));
				d.buckets.insert((*start, *size));
			},
			Op::Force { root, door, cur, start, size } => {
				let d = &mut self.doors[*door];
				if !root || *cur < d.cur || *start < d.start || *size == 0 || cur < start {
					return None;
				}
				(d.cur, d.start, d.size) = (*cur, *start, *size);
				d.buckets.insert((*start, *size));
			},
			Op::Accept { who, offer } => {
				if !self.relayers.contains(who) {
					return None;
				}
				let d = &mut self.doors[1];
				d.addr?;
				out.push(Out::Accept { offer: *offer, ticket: d.take()?, fee: d.fee });
			},
			Op::Signers(n) => {
				for (door, d) in self.doors.iter_mut().enumerate() {
					d.addr?;
					out.push(Out::Signers { door, n: *n, ticket: d.take()?, fee: d.fee });
				}
			},
			Op::WithdrawNft { who, coll, serial, to } => {
				let c = self.colls.get_mut(*coll)?;
				if !c.xrpl || c.tok.get(serial) != Some(who) {
					return None;
				}
				c.tok.remove(serial);
				let id = *c.map.get(serial)?;
				let d = &mut self.doors[1];
				d.addr?;
				out.push(Out::Create { id, to: *to, ticket: d.take()?, fee: d.fee });
			},
			Op::Give { who, coll, serial, to } => {
				let o = self.colls.get_mut(*coll)?.tok.get_mut(serial)?;
				if o != who || who == to {
					return None;
				}
				*o = *to;
			},
			Op::Mint { who, coll } => {
				let c = self.colls.get_mut(*coll)?;
				if c.owner != *who {
					return None;
				}
				c.tok.insert(c.next, *who);
				c.next += 1;
			},
			Op::Fulfil { who, coll, serial, t } => {
				let c = self.colls.get_mut(*coll)?;
				if *who != 2 || !c.tok.contains_key(serial) || c.map.contains_key(serial) {
					return None;
				}
				c.map.insert(*serial, xls20(*t));
			},
			Op::Wait(w) => {
				if *w == Idle::Ample {
					if self.doors[0].addr.is_some() {
						let to = self.now.min(self.next_block + BLOCK_LIMIT);
						while self.next_block <= to {
							for id in self.schedule.remove(&self.next_block).unwrap_or_default() {
								out.push(self.delayed.remove(&id).unwrap().1);
							}
							self.next_block += 1;
						}
					}
					let to = self.open().min(self.pruned + MAX_PRUNE);
					while self.pruned < to {
						for id in self.settled.remove(&self.pruned).unwrap_or_default() {
							self.details.remove(&id);
						}
						self.pruned += 1;
					}
				}
				self.now += 1;
				for id in self.pending.remove(&self.now).unwrap_or_default() {
					if self.challenged.contains_key(&id) {
						continue;
					}
					let Some((ledger, d, _)) = self.details.get(&id).cloned() else { continue };
					let mut m = self.clone();
					if m.credit(d).is_some() {
						let s = m.settled.entry(ledger as u32).or_default();
						if s.len() < PER_LEDGER {
							s.push(id);
						}
						m.high = m.high.max(ledger as u32);
						*self = m;
					}
				}
			},
		}
		Some(out)
	}
}
fn issuer(c: u8) -> [u8; 20] {
	cur(c).issuer.0
}
fn data(d: Data) -> XrplTxData {
	match d {
		Data::Xrp(amount, to) => XrplTxData::Payment { amount, address: h160(to) },
		Data::Cur(amount, to, c) => XrplTxData::CurrencyPayment { amount, address: h160(to), currency: cur(c) },
		Data::Nft(t, to) => XrplTxData::Xls20 { token_id: xls20(t), address: h160(to) },
	}
}
fn exec(op: &Op) -> Result<(), String> {
	let s = |w: &usize| RuntimeOrigin::signed(acc(*w));
	let r = |root: &bool| if *root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(2)) };
	call(|| match op {
		Op::Submit { who, ledger, id, d } => XRPLBridge::submit_transaction(s(who), *ledger, hash(*id), data(*d), 5),
		Op::Challenge { who, id } => XRPLBridge::submit_challenge(s(who), hash(*id)),
		Op::Relayer { root, who, on: true } => XRPLBridge::add_relayer(r(root), acc(*who)),
		Op::Relayer { root, who, on: false } => XRPLBridge::remove_relayer(r(root), acc(*who)),
		Op::Map { root, asset, cur: c } => XRPLBridge::set_xrpl_asset_map(r(root), *asset, c.map(cur)),
		Op::Prune { root, ledger } => XRPLBridge::prune_settled_ledger_index(r(root), *ledger),
		Op::Reset { root, high, window, pruned, tx } => {
			let tx = tx.map(|(id, l)| vec![(hash(id), l, XrpTransaction { transaction_hash: hash(id), transaction: data(Data::Xrp(5, 0)), timestamp: 5 }, acc(2))]);
			XRPLBridge::reset_settled_xrpl_tx_data(r(root), *high, *window, *pruned, tx)
		},
		Op::Withdraw { who, asset: _, q, to, tag: None, old: true } => XRPLBridge::withdraw_xrp(s(who), *q, xrpl(*to)),
		Op::Withdraw { who, asset: _, q, to, tag: Some(t), old: true } => XRPLBridge::withdraw_xrp_with_destination_tag(s(who), *q, xrpl(*to), *t),
		Op::Withdraw { who, asset, q, to, tag, .. } => XRPLBridge::withdraw(s(who), *asset, *q, xrpl(*to), *tag),
		Op::Delay { root, asset, d } => XRPLBridge::set_payment_delay(r(root), *asset, *d),
		Op::Fee { root, door, fee } => XRPLBridge::set_door_tx_fee(r(root), DOORS[*door], *fee),
		Op::Tag { root, tag } => XRPLBridge::set_xrp_source_tag(r(root), *tag),
		Op::Addr { root, door, a } => XRPLBridge::set_door_address(r(root), DOORS[*door], a.map(xrpl)),
		Op::Next { who, door, start, size } => XRPLBridge::set_ticket_sequence_next_allocation(s(who), DOORS[*door], *start, *size),
		Op::Force { root, door, cur, start, size } => XRPLBridge::set_ticket_sequence_current_allocation(r(root), DOORS[*door], *cur, *start, *size),
		Op::Accept { who, offer } => XRPLBridge::generate_nft_accept_offer(s(who), [*offer; 32]),
		Op::Signers(n) => XRPLBridge::submit_signer_list_set_request((0..*n).map(|i| (xrpl(40 + i), 1 + i as u16)).collect()).map(|_| ()),
		Op::WithdrawNft { who, coll, serial, to } => XRPLBridge::withdraw_nft(s(who), (cid(*coll), *serial), xrpl(*to)),
		Op::Give { who, coll, serial, to } => Nft::transfer(s(who), cid(*coll), BoundedVec::truncate_from(vec![*serial]), acc(*to)),
		Op::Mint { who, coll } => Nft::mint(s(who), cid(*coll), 1, None),
		Op::Fulfil { who, coll, serial, t } => Xls20::fulfill_xls20_mint(s(who), cid(*coll), BoundedVec::truncate_from(vec![(*serial, xls20(*t))])),
		Op::Wait(w) => {
			let n = System::block_number();
			if *w == Idle::Ample {
				<XRPLBridge as Hooks<u64>>::on_idle(n, Weight::MAX);
			}
			System::set_block_number(n + 1);
			<XRPLBridge as Hooks<u64>>::on_initialize(n + 1);
			Ok(())
		},
	})
}
type Fields = BTreeMap<(u8, u8), Vec<u8>>;
/// Decodes the XRPL's binary format; the fields must be complete and in canonical order.
fn decode(b: &[u8]) -> Option<Fields> {
	let mut f = Fields::new();
	let mut last = (0, 0);
	let mut i = 0;
	while i < b.len() {
		let (mut ty, mut c) = (b[i] >> 4, b[i] & 15);
		i += 1;
		if ty == 0 {
			ty = *b.get(i)?;
			i += 1;
		}
		if c == 0 {
			c = *b.get(i)?;
			i += 1;
		}
		if (ty, c) <= last {
			return None;
		}
		last = (ty, c);
		let n = match ty {
			1 => 2,
			2 => 4,
			5 => 32,
			6 => {
				if b.get(i)? & 0x80 == 0 {
					8
				} else {
					48
				}
			},
			7 | 8 => {
				let n = *b.get(i)? as usize;
				i += 1;
				n
			},
			15 => b[i..].iter().rposition(|x| *x == 0xf1)? + 1,
			_ => return None,
		};
		f.insert(last, b.get(i..i + n)?.to_vec());
		i += n;
	}
	Some(f)
}
/// Compares a transaction to be signed with what it should be.
fn same(m: &M, o: &Out, blob: &[u8]) -> Check {
	let Some(f) = decode(blob) else { return Err(format!("signing: {blob:?} is not an XRPL transaction")) };
	let mut w = Fields::new();
	let (door, ty, ticket, fee, flags) = match o {
		Out::Pay { ticket, fee, .. } => (0, 0u16, ticket, fee, 0u32),
		Out::Accept { ticket, fee, .. } => (1, 29, ticket, fee, 0),
		Out::Create { ticket, fee, .. } => (1, 27, ticket, fee, 1),
		Out::Signers { door, ticket, fee, .. } => (*door, 12, ticket, fee, 0),
	};
	let mut u = |k: u8, v: u32| w.insert((2, k), v.to_be_bytes().to_vec());
	u(2, flags);
	u(3, m.tag);
	u(4, 0);
	u(41, *ticket);
	w.insert((1, 2), ty.to_be_bytes().to_vec());
	w.insert((6, 8), (1u64 << 62 | fee).to_be_bytes().to_vec());
	w.insert((7, 3), vec![]);
	w.insert((8, 1), xrpl(m.doors[door].addr.unwrap()).0.to_vec());
	match o {
		Out::Pay { asset, q, to, tag, cur, .. } => {
			if let Some(t) = tag {
				w.insert((2, 14), t.to_be_bytes().to_vec());
			}
			w.insert((8, 3), xrpl(*to).0.to_vec());
			let a = f.get(&(6, 1)).cloned().unwrap_or_default();
			match cur {
				None => {
					w.insert((6, 1), (1u64 << 62 | u64::try_from(*q).unwrap_or(0)).to_be_bytes().to_vec());
				},
				Some((code, issuer)) => {
					req!(a.len() == 48, "signing: the amount of asset {asset} is not an issued one");
					req!(a[8..28] == code[..] && a[28..] == issuer[..], "signing: asset {asset} is paid in currency {:?}", &a[8..]);
					let v = u64::from_be_bytes(a[..8].try_into().unwrap());
					let (mantissa, exp) = (v & ((1 << 54) - 1), (v >> 54 & 0xff) as i32 - 97);
					req!(v >> 63 == 1 && v >> 62 & 1 == 1 && (1_000_000_000_000_000..10_000_000_000_000_000).contains(&mantissa), "signing: {v:x} is not a positive issued amount");
					let e = exp + m.dec[asset] as i32;
					let mut x = mantissa as u128;
					let mut exact = true;
					for _ in 0..e.unsigned_abs() {
						if e < 0 {
							exact &= x % 10 == 0;
							x /= 10;
						} else {
							x = x.checked_mul(10).unwrap_or(u128::MAX);
						}
					}
					req!(exact && x == *q, "amount: {q} of asset {asset} left the account, {mantissa}e{exp} (of {} decimals) is paid", m.dec[asset]);
					w.insert((6, 1), a);
				},
			}
		},
		Out::Accept { offer, .. } => {
			w.insert((5, 29), vec![*offer; 32]);
		},
		Out::Create { id, to, .. } => {
			w.insert((5, 10), id.to_vec());
			w.insert((6, 1), (1u64 << 62).to_be_bytes().to_vec());
			w.insert((8, 3), xrpl(*to).0.to_vec());
		},
		Out::Signers { n, .. } => {
			w.insert((2, 35), (*n as u32).saturating_sub(1).to_be_bytes().to_vec());
			let list = f.get(&(15, 4)).cloned().unwrap_or_default();
			let mut e: Vec<&[u8]> = list.strip_suffix(&[0xf1]).unwrap_or(&[]).chunks(27).collect();
			e.sort();
			let want: Vec<Vec<u8>> = (0..*n).map(|i| [&[0xeb, 0x13, 0, 1 + i, 0x81, 20][..], &xrpl(40 + i).0, &[0xe1]].concat()).collect();
			let mut want: Vec<&[u8]> = want.iter().map(|x| &x[..]).collect();
			want.sort();
			req!(e == want, "signing: the signers are {e:?}, expected {want:?}");
			w.insert((15, 4), list.clone());
		},
	}
	req!(f == w, "signing: {o:?} is to be signed as {f:?}, expected {w:?}");
	Ok(())
}
const PEOPLE: usize = 4;
fn check(m: &M) -> Check {
	use pallet_xrpl_bridge as px;
	for a in ASSETS {
		for i in (0..PEOPLE).chain([POOL]) {
			let b = AssetsExt::balance(a, &acc(i));
			req!(b == m.b(a, i), "balance: account {i} has {b} of asset {a}, expected {}", m.b(a, i));
		}
	}
	let rel: BTreeSet<usize> = (0..PEOPLE).filter(|i| px::Relayer::<Test>::get(acc(*i)).unwrap_or(false)).collect();
	req!(rel == m.relayers, "relayers: {rel:?}, expected {:?}", m.relayers);
	let name = |h: XrplTxHash| (h.to_low_u64_be() - 700) as u8;
	let d: BTreeMap<u8, (u64, XrplTxData, AccountId)> = px::ProcessXRPTransactionDetails::<Test>::iter().map(|(h, (l, t, w))| (name(h), (l, t.transaction, w))).collect();
	let want: BTreeMap<_, _> = m.details.iter().map(|(h, (l, t, w))| (*h, (*l, data(*t), acc(*w)))).collect();
	req!(d == want, "details: {d:?} are kept, expected {want:?}");
	let mut p: BTreeMap<u64, Vec<u8>> = px::ProcessXRPTransaction::<Test>::iter().map(|(b, v)| (b, v.into_iter().map(name).collect())).collect();
	p.retain(|_, v| !v.is_empty());
	let mut want = m.pending.clone();
	want.retain(|_, v| !v.is_empty());
	req!(p == want, "pending: {p:?}, expected {want:?}");
	let c: BTreeSet<u8> = px::ChallengeXRPTransactionList::<Test>::iter().map(|x| name(x.0)).collect();
	req!(c == m.challenged.keys().cloned().collect(), "challenges: {c:?}, expected {:?}", m.challenged);
	let s: BTreeMap<u32, Vec<u8>> = px::SettledXRPTransactionDetails::<Test>::iter().map(|(b, v)| (b, v.into_iter().map(name).collect())).collect();
	let mut want = m.settled.clone();
	want.retain(|_, v| !v.is_empty());
	req!(s == want, "settled: {s:?}, expected {want:?}");
	let w = (px::HighestSettledLedgerIndex::<Test>::get(), px::SubmissionWindowWidth::<Test>::get(), px::HighestPrunedLedgerIndex::<Test>::get());
	req!(w == (m.high, m.window, m.pruned), "window: {w:?}, expected {:?}", (m.high, m.window, m.pruned));
	for a in ASSETS {
		let c = px::AssetIdToXRPL::<Test>::get(a);
		req!(c == m.a2c.get(&a).map(|c| cur(*c)), "mapping: asset {a} is {c:?}");
	}
	for c in 0..4 {
		let a = px::XRPLToAssetId::<Test>::get(cur(c));
		req!(a == m.c2a.get(&c).cloned(), "mapping: currency {c} is {a:?}, expected {:?}", m.c2a.get(&c));
	}
	for (i, d) in m.doors.iter().enumerate() {
		let k = DOORS[i];
		let (cp, n) = (px::DoorTicketSequenceParams::<Test>::get(k), px::DoorTicketSequenceParamsNext::<Test>::get(k));
		let got = (px::DoorAddress::<Test>::get(k), px::DoorTxFee::<Test>::get(k), px::DoorTicketSequence::<Test>::get(k), cp.start_sequence, cp.bucket_size, n.start_sequence, n.bucket_size);
		let nx = d.next.unwrap_or((0, 0));
		let want = (d.addr.map(xrpl), d.fee, d.cur, d.start, d.size, nx.0, nx.1);
		req!(got == want, "door: {i} is {got:?}, expected {want:?}");
		for t in &d.used {
			req!(d.buckets.iter().any(|(s, n)| t >= s && *t < s.saturating_add(*n)), "ticket: {t} of door {i} is in none of {:?}", d.buckets);
		}
	}
	req!(px::SourceTag::<Test>::get() == m.tag, "door: wrong source tag");
	for a in ASSETS {
		let d = px::PaymentDelay::<Test>::get(a);
		req!(d == m.delay.get(&a).cloned(), "delay: of asset {a} is {d:?}");
	}
	let s: BTreeMap<u64, Vec<u64>> = px::DelayedPaymentSchedule::<Test>::iter().map(|(b, v)| (b, v.into_inner())).collect();
	let mut want = m.schedule.clone();
	want.retain(|_, v| !v.is_empty());
	req!(s == want, "delayed: {s:?} are scheduled, expected {want:?}");
	let s: Vec<(u64, AccountId)> = {
		let mut v: Vec<_> = px::DelayedPayments::<Test>::iter().map(|(i, p)| (i, p.sender)).collect();
		v.sort();
		v
	};
	let want: Vec<(u64, AccountId)> = m.delayed.iter().map(|(i, p)| (*i, acc(p.0))).collect();
	req!(s == want, "delayed: {s:?} are waiting, expected {want:?}");
	req!(px::NextDelayProcessBlock::<Test>::get() == m.next_block, "delayed: next block is {}, expected {}", px::NextDelayProcessBlock::<Test>::get(), m.next_block);
	for (i, c) in m.colls.iter().enumerate() {
		let Some(g) = pallet_nft::CollectionInfo::<Test>::get(cid(i)) else { return Err(format!("collection: {i} does not exist")) };
		let own: BTreeMap<u32, AccountId> = g.owned_tokens.iter().flat_map(|o| o.owned_serials.iter().map(|s| (*s, o.owner))).collect();
		let want: BTreeMap<u32, AccountId> = c.tok.iter().map(|(s, w)| (*s, acc(*w))).collect();
		req!(own == want, "tokens: of collection {i} belong to {own:?}, expected {want:?}");
		req!(g.cross_chain_compatibility.xrpl == c.xrpl, "collection: {i} has the wrong compatibility");
		if c.owner == usize::MAX {
			let p: AccountId = Xls20PalletId::get().into_account_truncating();
			req!(g.owner == p && g.origin_chain == OriginChain::XRPL && g.max_issuance.is_none(), "collection: bridged {i} is {g:?}");
		}
		let t: BTreeMap<u32, [u8; 32]> = pallet_xls20::Xls20TokenMap::<Test>::iter_prefix(cid(i)).collect();
		req!(t == c.map, "tokens: of collection {i} are mapped to {t:?}, expected {:?}", c.map);
	}
	req!(pallet_nft::CollectionInfo::<Test>::get(cid(m.colls.len())).is_none(), "collection: an unexpected one was created");
	let got: BTreeMap<Vec<u8>, u32> = pallet_xls20::CollectionMapping::<Test>::iter().map(|(k, v)| (k.encode(), v)).collect();
	let want: BTreeMap<Vec<u8>, u32> = m.keys.iter().map(|((i, t), c)| ((H160([0x90 + i; 20]), *t).encode(), cid(*c))).collect();
	req!(got == want, "collection: issuers and taxons are mapped to {got:?}, expected {want:?}");
	Ok(())
}
/// An idle phase with little weight may leave work for later: which was done is observed and checked.
fn partial(m: &mut M, blobs: usize) -> Result<Vec<Out>, String> {
	use pallet_xrpl_bridge as px;
	let mut out = vec![];
	let mut k = blobs;
	let nb = px::NextDelayProcessBlock::<Test>::get();
	req!(nb >= m.next_block && nb <= m.now + 1, "delayed: next block went from {} to {nb} in block {}", m.next_block, m.now);
	if m.doors[0].addr.is_none() {
		req!(k == 0 && nb == m.next_block, "delayed: payments were processed without a door");
	}
	let due: Vec<u64> = m.schedule.range(..=m.now).map(|x| *x.0).collect();
	for b in due {
		let ids = m.schedule.get_mut(&b).unwrap();
		let n = k.min(ids.len());
		req!(n == ids.len() || b >= nb, "delayed: payments of block {b} were passed over");
		for id in ids.drain(..n) {
			out.push(m.delayed.remove(&id).unwrap().1);
		}
		k -= n;
	}
	req!(k == 0, "delayed: {k} payments more than were due are to be signed");
	m.next_block = nb;
	let hp = px::HighestPrunedLedgerIndex::<Test>::get();
	let end = m.open().min(m.pruned + MAX_PRUNE);
	req!(hp >= m.pruned && hp <= end.max(m.pruned), "pruning: went from {} to {hp}, allowed up to {end}", m.pruned);
	for l in m.pruned..end {
		let left: Vec<u8> = px::SettledXRPTransactionDetails::<Test>::get(l).unwrap_or_default().iter().map(|h| (h.to_low_u64_be() - 700) as u8).collect();
		let s = m.settled.entry(l).or_default();
		req!(s.ends_with(&left), "pruning: {left:?} are left of {s:?}");
		req!(left.is_empty() || l >= hp, "pruning: ledger {l} was passed over");
		for id in s.drain(..s.len() - left.len()) {
			m.details.remove(&id);
		}
		m.settled.retain(|_, v| !v.is_empty());
	}
	m.pruned = hp;
	Ok(out)
}
/// Outer error: violation; inner: the (legal) refusal.
fn lockstep(m: &mut M, op: &Op) -> Result<Result<(), String>, String> {
	let h = shim::ext::state_hash();
	let kind = format!("{op:?}").split([' ', '{', '(']).next().unwrap().to_string();
	let mut want = m.clone();
	let mut pre = vec![];
	if let Op::Wait(Idle::Small(k)) = op {
		let rw = frame_support::weights::constants::RocksDbWeight::get().reads_writes(1, 1);
		<XRPLBridge as Hooks<u64>>::on_idle(System::block_number(), rw.saturating_mul(*k));
		pre = partial(&mut want, unhashed::get_or_default::<Vec<Vec<u8>>>(BLOBS).len())?;
	}
	let r = exec(op);
	let blobs: Vec<Vec<u8>> = unhashed::get_or_default(BLOBS);
	let before: Vec<BTreeSet<u32>> = m.doors.iter().map(|d| d.used.clone()).collect();
	let ok = want.apply(op);
	if let Err(e) = &r {
		req!(shim::ext::state_hash() == h, "atomicity: refused {kind} ({e}) changed the state");
	}
	match (&r, ok) {
		(Ok(()), None) => return Err(format!("admission: {kind} was accepted but must be refused")),
		(Err(e), Some(_)) => return Err(format!("admission: {kind} was refused with {e} but must succeed")),
		(Ok(()), Some(out)) => {
			let out = [pre, out].concat();
			*m = want;
			req!(blobs.len() == out.len(), "signing: {kind} requested {} signatures, expected {}", blobs.len(), out.len());
			for (o, b) in out.iter().zip(&blobs) {
				same(m, o, b)?;
				let (door, t) = match o {
					Out::Pay { ticket, .. } => (0, ticket),
					Out::Accept { ticket, .. } | Out::Create { ticket, .. } => (1, ticket),
					Out::Signers { door, ticket, .. } => (*door, ticket),
				};
				if !matches!(op, Op::Wait(_)) {
					req!(!before[door].contains(t), "ticket: {t} of door {door} was used twice");
				}
			}
			unhashed::kill(BLOBS);
		},
		_ => {},
	}
	check(m)?;
	Ok(r)
}
fn both(m: &mut M, op: Op) {
	let r = lockstep(m, &op);
	assert!(matches!(&r, Ok(Ok(()))), "setup {op:?}: {r:?}");
}
fn genesis() -> M {
	System::set_block_number(1);
	pallet_nft::NextCollectionId::<Test>::put(1);
	let mut m = M { now: 1, ..Default::default() };
	for (a, d) in [(ROOT, 6), (XRP, 6), (A, 6), (B, 18)] {
		Assets::force_create(RuntimeOrigin::root(), a, acc(9), true, 1).unwrap();
		Assets::force_set_metadata(RuntimeOrigin::root(), a, vec![b'N'], vec![b'S'], d, false).unwrap();
		m.dec.insert(a, d);
	}

	for (a, w, q) in [(XRP, 0, 40), (XRP, 1, 9), (A, 0, 30), (B, 1, 20), (ROOT, 0, 25), (ROOT, 1, 3)] {
		AssetsExt::mint_into(a, &acc(w), q).unwrap();
		m.bal.insert((a, w), q);
	}
	for d in m.doors.iter_mut() {
		d.fee = 1_000_000;
	}
	m.window = pallet_xrpl_bridge::SubmissionWindowWidth::<Test>::get();
	m.pruned = pallet_xrpl_bridge::HighestPrunedLedgerIndex::<Test>::get();
	let uri = || MetadataScheme::try_from(b"https://a/".as_slice()).unwrap();
	for xrpl in [true, false] {
		Nft::do_create_collection(acc(0), BoundedVec::truncate_from(b"n0".to_vec()), 0, None, None, uri(), None, OriginChain::Root, CrossChainCompatibility { xrpl }).unwrap();
		m.colls.push(Coll { xrpl, ..Default::default() });
	}
	Xls20::set_relayer(RuntimeOrigin::root(), acc(2)).unwrap();
	let m2 = &mut m;
	both(m2, Op::Relayer { root: true, who: 2, on: true });
	both(m2, Op::Reset { root: true, high: 10, window: 3, pruned: Some(7), tx: None });
	both(m2, Op::Tag { root: true, tag: 77 });
	for door in 0..2 {
		both(m2, Op::Fee { root: true, door, fee: 2 + door as u64 });
		both(m2, Op::Addr { root: true, door, a: Some(door as u8) });
	}
	m
}
#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Deposits,
	Withdrawals,
	Tickets,
	Nfts,
}
struct S(Focus, bool);
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		4
	}
	fn init(&self, i: usize) -> M {
		let mut m = genesis();
		let m2 = &mut m;
		if i > 0 {
			both(m2, Op::Map { root: true, asset: A, cur: Some(0) });
			both(m2, Op::Map { root: true, asset: ROOT, cur: Some(2) });
			for door in 0..2 {
				both(m2, Op::Next { who: 2, door, start: 10, size: 3 });
			}
		}
		if i == 3 {
			// two deposits due in the same block, two payments delayed to the same block, and one of each later
			both(m2, Op::Delay { root: true, asset: XRP, d: Some((2, 2)) });
			both(m2, Op::Submit { who: 2, ledger: 11, id: 0, d: Data::Xrp(5, 1) });
			both(m2, Op::Submit { who: 2, ledger: 12, id: 1, d: Data::Cur(2, 1, 0) });
			both(m2, Op::Withdraw { who: 0, asset: XRP, q: 3, to: 5, tag: Some(8), old: false });
			both(m2, Op::Withdraw { who: 1, asset: XRP, q: 2, to: 6, tag: None, old: false });
			both(m2, Op::Wait(Idle::Ample));
			both(m2, Op::Submit { who: 2, ledger: 12, id: 2, d: Data::Xrp(7, 0) });
			both(m2, Op::Withdraw { who: 0, asset: XRP, q: 2, to: 6, tag: None, old: false });
			both(m2, Op::Mint { who: 0, coll: 0 });
			both(m2, Op::Fulfil { who: 2, coll: 0, serial: 0, t: tok(2, 0, 90) });
		} else if i > 1 {
			both(m2, Op::Withdraw { who: 0, asset: ROOT, q: 6, to: 5, tag: None, old: false });
			both(m2, Op::Submit { who: 2, ledger: 9, id: 0, d: Data::Xrp(5, 1) });
			both(m2, Op::Submit { who: 2, ledger: 11, id: 1, d: Data::Cur(2, 1, 2) });
			both(m2, Op::Wait(Idle::Ample));
			both(m2, Op::Submit { who: 2, ledger: 9, id: 2, d: Data::Nft(tok(1, 3, 4), 1) });
			both(m2, Op::Wait(Idle::Ample));
			both(m2, Op::Submit { who: 2, ledger: 12, id: 3, d: Data::Cur(1, 0, 0) });
			both(m2, Op::Wait(Idle::Ample));
			both(m2, Op::Delay { root: true, asset: XRP, d: Some((4, 1)) });
			both(m2, Op::Withdraw { who: 0, asset: XRP, q: 4, to: 5, tag: Some(8), old: false });
			both(m2, Op::Mint { who: 0, coll: 0 });
			both(m2, Op::Mint { who: 0, coll: 0 });
			both(m2, Op::Mint { who: 0, coll: 1 });
			both(m2, Op::Fulfil { who: 2, coll: 0, serial: 0, t: tok(2, 0, 90) });
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let (f, rich) = (self.0, self.1);
		let mut v = vec![];
		let fresh = (0..9).find(|i| !m.details.contains_key(i)).unwrap();
		if f == Focus::Deposits || rich {
			for d in [Data::Xrp(3, 0), Data::Cur(4, 1, 0), Data::Cur(4, 1, 2)] {
				for ledger in [9, 15] {
					v.push(Op::Submit { who: 2, ledger, id: fresh, d });
				}
			}
			v.push(Op::Submit { who: 2, ledger: 1 + m.high as u64, id: 0, d: Data::Xrp(3, 3) });
			v.push(Op::Submit { who: 2, ledger: m.open() as u64, id: 2, d: Data::Xrp(3, 3) });
			v.push(Op::Submit { who: 2, ledger: (m.open() as u64).saturating_sub(1), id: fresh, d: Data::Xrp(1, 3) });
			v.push(Op::Submit { who: 0, ledger: 12, id: fresh, d: Data::Xrp(1, 0) });
			v.push(Op::Submit { who: 2, ledger: 11, id: fresh, d: Data::Xrp(u128::MAX - 20, 0) });
			v.push(Op::Submit { who: 2, ledger: 11, id: fresh, d: Data::Cur(1, 0, 1) });
			for id in 0..4 {
				v.push(Op::Challenge { who: 3, id });
			}
			for asset in [A, B] {
				for c in [Some(0), Some(1), None] {
					v.push(Op::Map { root: true, asset, cur: c });
				}
			}
			for ledger in [8, 9, 11, 12] {
				v.push(Op::Prune { root: true, ledger });
			}
			v.push(Op::Reset { root: true, high: 13, window: 2, pruned: None, tx: Some((7, 8)) });
			v.push(Op::Reset { root: true, high: 13, window: 2, pruned: Some(12), tx: None });
			v.push(Op::Wait(Idle::Small(7)));
			v.push(Op::Wait(Idle::Small(9)));
			v.push(Op::Relayer { root: true, who: 3, on: true });
			v.push(Op::Relayer { root: true, who: 2, on: false });
		}
		if f == Focus::Withdrawals || rich {
			for asset in ASSETS {
				for q in [1, 4, 7, 8] {
					v.push(Op::Withdraw { who: 0, asset, q, to: 6, tag: None, old: false });
				}
				v.push(Op::Withdraw { who: 1, asset, q: 3, to: 5, tag: Some(9), old: false });
			}
			v.push(Op::Withdraw { who: 0, asset: XRP, q: 38, to: 5, tag: Some(0), old: true });
			v.push(Op::Withdraw { who: 0, asset: XRP, q: 5, to: 5, tag: None, old: true });
			v.push(Op::Withdraw { who: 0, asset: XRP, q: 0, to: 5, tag: None, old: true });
			v.push(Op::Withdraw { who: 0, asset: A, q: u128::MAX, to: 5, tag: None, old: false });
			for asset in [XRP, A] {
				v.push(Op::Delay { root: true, asset, d: Some((4, 2)) });
				v.push(Op::Delay { root: true, asset, d: Some((4, 0)) });
				v.push(Op::Delay { root: true, asset, d: None });
			}
			v.push(Op::Fee { root: true, door: 0, fee: 0 });
			v.push(Op::Fee { root: true, door: 0, fee: 1 << 50 });
			v.push(Op::Tag { root: true, tag: 3 });
			for a in [Some(2), None] {
				v.push(Op::Addr { root: true, door: 0, a });
			}
			v.push(Op::Map { root: true, asset: A, cur: None });
			v.push(Op::Map { root: true, asset: B, cur: Some(0) });
			for k in [4, 6, 8, 10] {
				v.push(Op::Wait(Idle::Small(k)));
			}
		}
		if f == Focus::Tickets || rich {
			for door in 0..2 {
				let d = &m.doors[door];
				for start in [d.cur.saturating_sub(1), d.cur, d.cur.saturating_add(1), d.start.saturating_add(d.size), d.start.saturating_add(d.size + 2)] {
					v.push(Op::Next { who: 2, door, start, size: 2 });
				}
				v.push(Op::Next { who: 2, door, start: 30, size: 0 });
				v.push(Op::Next { who: 0, door, start: 30, size: 1 });
				let up = |x: u32, n| x.saturating_add(n);
				for (c, s) in [(d.cur, d.start), (up(d.cur, 1), d.cur), (d.cur, up(d.cur, 1)), (up(d.cur, 3), up(d.start, 1)), (d.cur.saturating_sub(1), d.start), (u32::MAX - 1, u32::MAX - 2)] {
					v.push(Op::Force { root: true, door, cur: c, start: s, size: 2 });
				}
				v.push(Op::Force { root: true, door, cur: 50, start: 50, size: 0 });
			}
			v.push(Op::Withdraw { who: 0, asset: XRP, q: 1, to: 5, tag: None, old: false });
			v.push(Op::Withdraw { who: 0, asset: A, q: 1, to: 5, tag: None, old: false });
			v.push(Op::Accept { who: 2, offer: 4 });
			v.push(Op::Accept { who: 0, offer: 4 });
			v.push(Op::Signers(3));
			v.push(Op::Signers(0));
			v.push(Op::Addr { root: true, door: 1, a: None });
		}
		if f == Focus::Nfts || rich {
			for t in [tok(1, 3, 4), tok(1, 3, 5), tok(1, 4, 4), tok(2, 3, 4), Token { issuer: 1, taxon: 3, seq: 6, burnable: true }] {
				v.push(Op::Submit { who: 2, ledger: 12, id: fresh, d: Data::Nft(t, 0) });
			}
			for coll in 0..m.colls.len() + 1 {
				for serial in m.colls.get(coll).map_or(vec![0], |c| c.tok.keys().chain(c.map.keys()).cloned().collect::<BTreeSet<u32>>().into_iter().collect()) {
					for who in 0..2 {
						v.push(Op::WithdrawNft { who, coll, serial, to: 6 });
						v.push(Op::Give { who, coll, serial, to: 1 - who });
					}
					v.push(Op::Fulfil { who: 2, coll, serial, t: tok(3, 3, 91) });
				}
				v.push(Op::Mint { who: 0, coll });
			}
			v.push(Op::Fulfil { who: 0, coll: 0, serial: 0, t: tok(3, 3, 92) });
			v.push(Op::Addr { root: true, door: 1, a: None });
		}
		for op in [
			Op::Relayer { root: false, who: 3, on: true },
			Op::Map { root: false, asset: A, cur: Some(0) },
			Op::Map { root: true, asset: A, cur: Some(3) },
			Op::Prune { root: false, ledger: 8 },
			Op::Reset { root: false, high: 13, window: 2, pruned: None, tx: None },
			Op::Delay { root: false, asset: XRP, d: None },
			Op::Fee { root: false, door: 0, fee: 0 },
			Op::Tag { root: false, tag: 0 },
			Op::Addr { root: false, door: 0, a: None },
			Op::Force { root: false, door: 0, cur: 50, start: 50, size: 2 },
		] {
			v.push(op);
		}
		v.push(Op::Wait(Idle::Ample));
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let kind = format!("{op:?}").split([' ', '{', '(']).next().unwrap().to_string();
		let r = lockstep(m, op)?;
		Ok(format!("{kind}: {}", r.err().unwrap_or("ok".into())))
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)
	}
}
fn run(c: &mut Ctx, f: Focus, d: (usize, usize), rich: (usize, usize)) {
	c.assume("the limits are small (two deposits per block and per ledger, two delayed payments per block, two ledgers pruned per block), so that each is reached within the depth");
	let b = c.pick(d.0, d.1);
	c.bfs("focused alphabet", &S(f, false), depth(b));
	let b = c.pick(rich.0, rich.1);
	c.bfs("full alphabet", &S(f, true), depth(b));
}
/// Amount conversion: the signed amount is what left the account.
fn amounts(c: &mut Ctx) {
	let mut cases = vec![];
	let top = c.pick(37u32, 39);
	for d in 0..=c.pick(41u8, 60) {
		for e in 0..top {
			let p = 10u128.checked_pow(e).unwrap_or(u128::MAX);
			for m in [1u128, 9, 1_000_000_000_000_000, 1_234_567_890_123_456, 9_999_999_999_999_999, 12_345_678_901_234_567_890_123] {
				for off in [0i8, -1, 1] {
					let Some(q) = m.checked_mul(p) else { continue };
					cases.push((B, d, (q as i128).wrapping_add(off as i128) as u128));
				}
			}
		}
	}
	for d in [127, 128, 255] {
		cases.push((B, d, 5));
	}
	for q in [100_000_000_000_000_000, (1 << 60) + 7, u64::MAX as u128 + 1, (1 << 65) + 9, u128::MAX / 4] {
		cases.push((XRP, 6, q));
	}
	cases.retain(|x| x.2 > 0 && x.2 < u128::MAX / 2);
	c.enumerate("withdrawals: decimals, amount", cases.into_iter(), |(asset, d, q)| {
		let mut m = genesis();
		Assets::force_set_metadata(RuntimeOrigin::root(), B, vec![b'N'], vec![b'S'], *d, false).unwrap();
		m.dec.insert(B, *d);
		m.doors[0].fee = 2;
		both(&mut m, Op::Map { root: true, asset: B, cur: Some(1) });
		both(&mut m, Op::Next { who: 2, door: 0, start: 1, size: 3 });
		AssetsExt::mint_into(*asset, &acc(0), *q).map_err(|e| format!("setup: {e:?}"))?;
		*m.bal.entry((*asset, 0)).or_default() += q;
		let r = lockstep(&mut m, &Op::Withdraw { who: 0, asset: *asset, q: *q, to: 5, tag: None, old: false })?;
		Ok(match r {
			Ok(()) => "signed".into(),
			Err(e) => format!("refused: {e}"),
		})
	});
}
fn main() {
	explore::main(&[
		("X01", |c| run(c, Focus::Deposits, (4, 5), (2, 3))),
		("X02", |c| {
			run(c, Focus::Withdrawals, (3, 5), (2, 3));
			amounts(c);
		}),
		("X03", |c| run(c, Focus::Tickets, (4, 5), (2, 3))),
		("X04", |c| run(c, Focus::Nfts, (4, 6), (2, 3))),
	]);
}
