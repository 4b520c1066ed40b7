//! Lock-step exploration of the vortex distribution pallet over the real multi-currency pallet.
use explore::*;
use frame_support::traits::{
	fungibles::{Inspect, Mutate},
	Hooks,
};
use pallet_vortex_distribution::{VtxDistEras, VtxDistStatus, VtxDistStatuses};
pub use seed_pallet_common::test_prelude::*;
use seed_pallet_common::*;
use sp_core::U256;
use sp_runtime::{
	traits::{AccountIdConversion, ConstU32, ValidateUnsigned},
	transaction_validity::TransactionSource,
	BoundedVec,
};
use std::collections::BTreeMap;
construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Staking: pallet_staking,
		Vortex: pallet_vortex_distribution,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
impl pallet_staking::Config for Test {
	type MaxNominations = ();
	type Currency = Balances;
	type CurrencyBalance = Balance;
	type UnixTime = ();
	type CurrencyToVote = ();
	type RewardRemainder = ();
	type RuntimeEvent = RuntimeEvent;
	type Slash = ();
	type Reward = ();
	type SessionsPerEra = ();
	type SlashDeferDuration = ();
	type BondingDuration = ConstU32<1>;
	type SessionInterface = ();
	type EraPayout = ();
	type NextNewSession = ();
	type MaxNominatorRewardedPerValidator = ();
	type OffendingValidatorsThreshold = ();
	type ElectionProvider = ();
	type GenesisElectionProvider = ();
	type VoterList = ();
	type MaxUnlockingChunks = ();
	type HistoryDepth = ConstU32<84>;
	type TargetList = ();
	type BenchmarkingConfig = ();
	type WeightInfo = ();
	type AdminOrigin = EnsureRoot<AccountId>;
	type EventListeners = ();
}
type Extrinsic = sp_runtime::testing::TestXt<RuntimeCall, ()>;
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test
where
	RuntimeCall: From<C>,
{
	type OverarchingCall = RuntimeCall;
	type Extrinsic = Extrinsic;
}
const ROOT: AssetId = 1;
const VTX: AssetId = 3;
const XRP: AssetId = XRP_ASSET_ID;
const A: AssetId = 7;
const ASSETS: [AssetId; 4] = [ROOT, XRP, VTX, A];
/// One more than this is paid per call.
const BATCH: u32 = 1;
const INTERVAL: u64 = 2;
parameter_types! {
	pub const VtxVortexPotId: PalletId = PalletId(*b"vtx/vpot");
	pub const VtxRootPotId: PalletId = PalletId(*b"vtx/rpot");
	pub const VtxTxFeePotId: PalletId = PalletId(*b"txfeepot");
	pub const UnsignedInterval: u64 = INTERVAL;
	pub const PayoutBatchSize: u32 = BATCH;
	pub const VortexAssetId: AssetId = VTX;
	pub const RootAssetId: AssetId = ROOT;
}
impl pallet_vortex_distribution::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type NativeAssetId = RootAssetId;
	type VtxAssetId = VortexAssetId;
	type VtxDistPotId = VtxVortexPotId;
	type RootPotId = VtxRootPotId;
	type TxFeePotId = VtxTxFeePotId;
	type UnsignedInterval = UnsignedInterval;
	type PayoutBatchSize = PayoutBatchSize;
	type VtxDistIdentifier = u32;
	type MultiCurrency = AssetsExt;
	type HistoryDepth = ConstU32<84>;
	type MaxAssetPrices = ConstU32<3>;
	type MaxRewards = ConstU32<300>;
	type MaxStringLength = ConstU32<1000>;
}
fn call(f: impl FnOnce() -> DispatchResult) -> Result<(), String> {
	frame_support::storage::with_storage_layer(f).map_err(|e| {
		let s = format!("{e:?}");
		s.split("message: Some(\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or(&s).to_string()
	})
}
/// People 0..8, the pots after them.
const FEES: usize = 97;
const ROOTS: usize = 98;
const VAULT: usize = 99;
fn acc(i: usize) -> AccountId {
	match i {
		FEES => VtxTxFeePotId::get().into_account_truncating(),
		ROOTS => VtxRootPotId::get().into_account_truncating(),
		VAULT => VtxVortexPotId::get().into_account_truncating(),
		_ => create_account(60 + i as u64),
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum By {
	Root,
	Acc(usize),
	None,
}
fn origin(b: By) -> RuntimeOrigin {
	match b {
		By::Root => RuntimeOrigin::root(),
		By::Acc(i) => RuntimeOrigin::signed(acc(i)),
		By::None => RuntimeOrigin::none(),
	}
}
#[derive(Clone, Hash, Debug)]
struct Dist {
	st: VtxDistStatus2,
	/// account -> reward, paid
	book: BTreeMap<usize, (u128, bool)>,
	assets: Vec<AssetId>,
	eras: (u32, u32),
	/// calls since the last one that had someone to pay
	idle: u8,
}
#[derive(Clone, Copy, Hash, Debug, PartialEq, Eq)]
enum VtxDistStatus2 {
	Disabled,
	Enabled,
	Triggered,
	Paying,
	Done,
}
fn st(s: VtxDistStatus) -> VtxDistStatus2 {
	match s {
		VtxDistStatus::Disabled => VtxDistStatus2::Disabled,
		VtxDistStatus::Enabled => VtxDistStatus2::Enabled,
		VtxDistStatus::Triggered => VtxDistStatus2::Triggered,
		VtxDistStatus::Paying => VtxDistStatus2::Paying,
		VtxDistStatus::Done => VtxDistStatus2::Done,
	}
}
use VtxDistStatus2::*;
#[derive(Clone, Hash, Debug)]
struct M {
	now: u64,
	admin: Option<usize>,
	next: u32,
	d: BTreeMap<u32, Dist>,
	bal: BTreeMap<(AssetId, usize), u128>,
	/// the block from which on validators send payments
	due: u64,
}
#[derive(Clone, Debug)]
enum Op {
	Admin { by: By, who: usize },
	Create { by: By },
	Disable { by: By, id: u32 },
	Eras { by: By, id: u32, a: u32, b: u32 },
	Prices { by: By, id: u32, assets: Vec<AssetId> },
	Rewards { by: By, id: u32, list: Vec<(usize, u128)> },
	Trigger { by: By, id: u32 },
	Start { by: By, id: u32 },
	Pay { by: By, id: u32 },
	Redeem { by: By, id: u32, q: u128 },
	Earn { asset: AssetId, pot: usize, q: u128 },
	Worker { validator: bool },
	Block,
}
impl M {
	fn b(&self, a: AssetId, w: usize) -> u128 {
		self.bal.get(&(a, w)).cloned().unwrap_or(0)
	}
	fn give(&mut self, a: AssetId, to: usize, q: u128) {
		*self.bal.entry((a, to)).or_default() += q;
	}
	fn pay(&mut self, a: AssetId, from: usize, to: usize, q: u128) {
		*self.bal.get_mut(&(a, from)).filter(|x| **x >= q).expect("the model's balances") -= q;
		self.give(a, to, q);
	}
	fn all(&self, a: AssetId) -> u128 {
		self.bal.iter().filter(|x| x.0 .0 == a).map(|x| *x.1).sum()
	}
	fn boss(&self, b: By) -> bool {
		b == By::Root || matches!(b, By::Acc(w) if self.admin == Some(w))
	}
	fn of(&mut self, id: u32) -> &mut Dist {
		self.d.entry(id).or_insert(Dist { st: Disabled, book: Default::default(), assets: vec![], eras: (0, 0), idle: 0 })
	}
	/// `paid`: whom a payment call paid (the order is not specified).
	fn apply(&mut self, op: &Op, paid: &[usize]) -> Option<()> {
		match op {
			Op::Admin { by, who } => {
				if *by != By::Root {
					return None;
				}
				self.admin = Some(*who);
			},
			Op::Create { by } => {
				if !self.boss(*by) || self.next == u32::MAX {
					return None;
				}
				let id = self.next;
				self.next += 1;
				self.of(id).st = Enabled;
			},
			Op::Disable { by, id } => {
				if !self.boss(*by) || self.of(*id).st == Disabled {
					return None;
				}
				self.of(*id).st = Disabled;
			},
			Op::Eras { by, id, a, b } => {
				if !self.boss(*by) || a > b {
					return None;
				}
				self.of(*id).eras = (*a, *b);
			},
			Op::Prices { by, id, assets } => {
				if !self.boss(*by) || assets.contains(&VTX) {
					return None;
				}
				let d = self.of(*id);
				d.assets.extend(assets);
				d.assets.sort();
				d.assets.dedup();
			},
			Op::Rewards { by, id, list } => {
				if !self.boss(*by) || self.of(*id).st != Enabled {
					return None;
				}
				for (w, q) in list {
					let d = self.of(*id);
					d.book.insert(*w, (*q, false));
					d.book.values().try_fold(0u128, |a, x| a.checked_add(x.0))?;
				}
			},
			Op::Trigger { by, id } => {
				if !self.boss(*by) || self.of(*id).st != Enabled {
					return None;
				}
				for a in self.of(*id).assets.clone() {
					let q = self.b(a, FEES);
					if q > 0 {
						self.pay(a, FEES, VAULT, q);
					}
				}
				let q = self.b(ROOT, ROOTS);
				if q > 0 {
					self.pay(ROOT, ROOTS, VAULT, q);
				}
				self.of(*id).st = Triggered;
			},
			Op::Start { by, id } => {
				if !self.boss(*by) || self.of(*id).st != Triggered {
					return None;
				}
				let q: u128 = self.of(*id).book.values().map(|x| x.0).sum();
				self.all(VTX).checked_add(q)?;
				self.give(VTX, VAULT, q);
				self.of(*id).st = Paying;
			},
			Op::Pay { by, id } => {
				if *by != By::None {
					return None;
				}
				self.due = self.now + INTERVAL;
				for w in paid {
					let e = self.of(*id).book.get_mut(w).unwrap();
					assert!(!e.1);
					e.1 = true;
					let q = e.0;
					self.pay(VTX, VAULT, *w, q);
				}
			},
			Op::Redeem { by, id, q } => {
				let By::Acc(w) = *by else { return None };
				let all = self.all(VTX);
				if *q == 0 || *q > self.b(VTX, w) || self.of(*id).st != Done {
					return None;
				}
				for a in self.of(*id).assets.clone() {
					let x = U256::from(*q) * U256::from(self.b(a, VAULT)) / U256::from(all);
					if !x.is_zero() {
						self.pay(a, VAULT, w, x.as_u128());
					}
				}
				*self.bal.get_mut(&(VTX, w)).unwrap() -= q;
			},
			Op::Earn { asset, pot, q } => self.give(*asset, *pot, *q),
			Op::Worker { .. } => {},
			Op::Block => self.now += 1,
		}
		Some(())
	}
}
fn exec(op: &Op) -> Result<(), String> {
	call(|| match op {
		Op::Admin { by, who } => Vortex::set_admin(origin(*by), acc(*who)),
		Op::Create { by } => Vortex::create_vtx_dist(origin(*by)),
		Op::Disable { by, id } => Vortex::disable_vtx_dist(origin(*by), *id),
		Op::Eras { by, id, a, b } => Vortex::set_vtx_dist_eras(origin(*by), *id, *a, *b),
		Op::Prices { by, id, assets } => Vortex::set_asset_prices(origin(*by), BoundedVec::truncate_from(assets.iter().map(|a| (*a, 5)).collect()), *id).map(|_| ()).map_err(|e| e.error),
		Op::Rewards { by, id, list } => Vortex::register_rewards(origin(*by), *id, BoundedVec::truncate_from(list.iter().map(|x| (acc(x.0), x.1)).collect())),
		Op::Trigger { by, id } => Vortex::trigger_vtx_distribution(origin(*by), *id).map(|_| ()).map_err(|e| e.error),
		Op::Start { by, id } => Vortex::start_vtx_dist(origin(*by), *id),
		Op::Pay { by, id } => Vortex::pay_unsigned(origin(*by), *id, System::block_number()),
		Op::Redeem { by, id, q } => Vortex::redeem_tokens_from_vault(origin(*by), *id, *q),
		Op::Earn { asset, pot, q } => AssetsExt::mint_into(*asset, &acc(*pot), *q).map(|_| ()),
		Op::Worker { .. } => Ok(()),
		Op::Block => {
			System::set_block_number(System::block_number() + 1);
			Ok(())
		},
	})
}
const PEOPLE: usize = 6;
fn check(m: &M) -> Check {
	for a in ASSETS {
		let mut sum = 0;
		for i in (0..PEOPLE).chain([FEES, ROOTS, VAULT]) {
			let b = AssetsExt::balance(a, &acc(i));
			req!(b == m.b(a, i), "balances: account {i} has {b} of asset {a}, expected {}", m.b(a, i));
			sum += b;
		}
		let all = AssetsExt::total_issuance(a);
		req!(sum == all, "supply: accounts own {sum} of asset {a}, {all} exist");
	}
	for (id, d) in &m.d {
		let s = st(VtxDistStatuses::<Test>::get(id));
		req!(s == d.st, "status: distribution {id} is {s:?}, expected {:?}", d.st);
		req!(VtxDistEras::<Test>::get(id) == d.eras, "eras: distribution {id} has {:?}, expected {:?}", VtxDistEras::<Test>::get(id), d.eras);
	}
	let listed = VtxDistStatuses::<Test>::iter().count();
	let known = m.d.keys().filter(|i| **i < m.next && m.next - **i < 100).count();
	req!(listed == known, "status: {listed} distributions are stored, expected {known}");
	let owed: u128 = m.d.values().filter(|d| matches!(d.st, Paying)).flat_map(|d| d.book.values()).filter(|x| !x.1).map(|x| x.0).sum();
	req!(owed <= m.b(VTX, VAULT), "backing: {owed} VTX are owed, the vault has {}", m.b(VTX, VAULT));
	Ok(())
}
/// What a node sends to the pool in this block.
fn worker(m: &M, validator: bool) -> Check {
	shim::sp_io::offchain::set_validator(validator);
	let _ = shim::sp_io::offchain::take_pool();
	<Vortex as Hooks<u64>>::offchain_worker(System::block_number());
	shim::sp_io::offchain::set_validator(true);
	let mut got: Vec<u32> = vec![];
	for x in shim::sp_io::offchain::take_pool() {
		let xt = <Extrinsic as codec::Decode>::decode(&mut &x[..]).map_err(|e| format!("worker: sent something undecodable: {e:?}"))?;
		match xt.call {
			RuntimeCall::Vortex(ref c @ pallet_vortex_distribution::Call::pay_unsigned { id, .. }) => {
				let v = <Vortex as ValidateUnsigned>::validate_unsigned(TransactionSource::Local, c);
				req!(v.is_ok(), "worker: sent a transaction that is not valid: {v:?}");
				got.push(id);
			},
			c => return Err(format!("worker: sent {c:?}")),
		}
	}
	got.sort();
	let want: Vec<u32> = if validator && m.due <= m.now { m.d.iter().filter(|d| d.1.st == Paying).map(|d| *d.0).collect() } else { vec![] };
	req!(got == want, "worker: sent payments for {got:?}, expected {want:?} (validator: {validator})");
	Ok(())
}
fn lockstep(m: &mut M, op: &Op) -> Result<Result<(), String>, String> {
	let h = shim::ext::state_hash();
	let admin = m.admin;
	let kind = format!("{op:?}").split([' ', '{', '(']).next().unwrap().to_string();
	if let Op::Worker { validator } = op {
		worker(m, *validator)?;
		req!(shim::ext::state_hash() == h, "worker: changed the state");
		return Ok(Ok(()));
	}
	System::reset_events();
	let r = exec(op);
	let mut want = m.clone();
	let mut paid = vec![];
	if let (Op::Pay { id, .. }, Ok(())) = (op, &r) {
		let d = want.of(*id);
		if d.st == Paying {
			let due: Vec<usize> = d.book.iter().filter(|x| !x.1 .1).map(|x| *x.0).collect();
			// who was paid is told by the events, that it was so by the balances
			for e in System::events() {
				if let RuntimeEvent::Vortex(pallet_vortex_distribution::Event::VtxDistPaidOut { id: i, who, amount }) = e.event {
					let w = (0..PEOPLE).find(|w| acc(*w) == who).ok_or("payment: to a stranger")?;
					req!(i == *id && due.contains(&w) && d.book[&w].0 == amount && !paid.contains(&w), "payment: {amount} were paid to {w} for distribution {i}, due are {due:?}");
					paid.push(w);
				}
			}
			req!(due.is_empty() || !paid.is_empty(), "progress: nobody was paid although {due:?} are due");
			req!(paid.len() <= BATCH as usize + 1, "batch: {} were paid at once", paid.len());
			let done = st(VtxDistStatuses::<Test>::get(id)) == Done;
			req!(!done || paid.len() == due.len(), "done: the distribution ended, {} of {due:?} were not paid", due.len() - paid.len());
			if paid.is_empty() {
				d.idle += 1;
			}
			req!(done || d.idle < 2, "done: everyone is paid and the distribution does not end");
			if done {
				d.st = Done;
			}
		}
	}
	let ok = want.apply(op, &paid).is_some();
	if let Err(e) = &r {
		req!(shim::ext::state_hash() == h, "atomicity: refused {kind} ({e}) changed the state");
	}
	match (&r, ok) {
		(Ok(()), false) => return Err(format!("admission: {kind} was accepted but must be refused")),
		(Err(e), true) => return Err(format!("admission: {kind} was refused with {e} but must succeed")),
		(Ok(()), true) => *m = want,
		_ => {},
	}
	if let (Op::Admin { who, .. }, Ok(())) = (op, &r) {
		for e in System::events() {
			if let RuntimeEvent::Vortex(pallet_vortex_distribution::Event::AdminAccountChanged { old_key, new_key }) = e.event {
				req!(new_key == acc(*who) && old_key == admin.map(acc), "event: the administrator changed from {old_key:?} to {new_key:?}");
			}
		}
	}
	check(m)?;
	Ok(r)
}
fn genesis() -> M {
	System::set_block_number(1);
	let mut m = M { now: 1, admin: None, next: 0, d: Default::default(), bal: Default::default(), due: 0 };
	for a in [VTX, XRP, A] {
		Assets::force_create(RuntimeOrigin::root(), a, acc(9), true, 1).unwrap();
	}
	for (a, w, q) in [(XRP, 0, 50), (A, 1, 50), (ROOT, 0, 100), (VTX, 5, 10)] {
		AssetsExt::mint_into(a, &acc(w), q).unwrap();
		m.give(a, w, q);
	}
	m
}
fn both(m: &mut M, op: Op) {
	let r = lockstep(m, &op);
	assert!(matches!(&r, Ok(Ok(()))), "setup {op:?}: {r:?}");
}
#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Pay,
	Redeem,
	All,
}
struct S(Focus);
const R: By = By::Root;
fn whole(m: &mut M, id: u32, assets: &[AssetId], list: &[(usize, u128)], upto: VtxDistStatus2) {
	both(m, Op::Create { by: R });
	both(m, Op::Prices { by: R, id, assets: assets.to_vec() });
	both(m, Op::Rewards { by: R, id, list: list.to_vec() });
	if upto == Enabled {
		return;
	}
	both(m, Op::Trigger { by: R, id });
	if upto == Triggered {
		return;
	}
	both(m, Op::Start { by: R, id });
	if upto == Paying {
		return;
	}
	for _ in 0..list.len() + 2 {
		both(m, Op::Pay { by: By::None, id });
	}
}
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		5
	}
	fn init(&self, i: usize) -> M {
		let mut m = genesis();
		let m2 = &mut m;
		for (asset, pot, q) in [(XRP, FEES, 1000), (A, FEES, 77), (ROOT, ROOTS, 500)] {
			if i > 0 {
				both(m2, Op::Earn { asset, pot, q });
			}
		}
		match i {
			0 => both(m2, Op::Admin { by: R, who: 0 }),
			1 => {
				both(m2, Op::Admin { by: R, who: 0 });
				whole(m2, 0, &[XRP, A], &[(1, 30), (2, 20), (3, 0), (4, 7)], Enabled);
				whole(m2, 1, &[XRP, ROOT], &[(1, 5), (4, 6), (5, 1)], Paying);
			},
			2 => {
				whole(m2, 0, &[XRP, A, ROOT], &[(1, 30), (2, 20), (3, 1)], Done);
				both(m2, Op::Admin { by: R, who: 0 });
				whole(m2, 1, &[XRP], &[(1, 5), (2, 1), (3, 2), (4, 6), (5, 1)], Paying);
				both(m2, Op::Pay { by: By::None, id: 1 });
			},
			3 => {
				both(m2, Op::Create { by: R });
				both(m2, Op::Prices { by: R, id: 0, assets: vec![XRP] });
				both(m2, Op::Rewards { by: R, id: 0, list: vec![(1, 30), (2, 20), (1, 7)] });
				both(m2, Op::Rewards { by: R, id: 0, list: vec![(2, 21)] });
				both(m2, Op::Trigger { by: R, id: 0 });
				whole(m2, 1, &[A], &[(1, 30), (3, 20), (1, 7)], Done);
			},
			_ => {
				whole(m2, 0, &[ROOT], &[(1, 3)], Done);
				both(m2, Op::Earn { asset: ROOT, pot: ROOTS, q: 13 });
				whole(m2, 1, &[XRP], &[(1, 5), (2, 11)], Triggered);
				both(m2, Op::Disable { by: R, id: 0 });
				whole(m2, 2, &[], &[], Paying);
			},
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let f = self.0;
		let mut v = vec![];
		let bosses: Vec<By> = if f == Focus::All { vec![By::Acc(0), R, By::Acc(1), By::None] } else { vec![By::Acc(0), By::Acc(1)] };
		for id in 0..m.next.min(3) + 1 {
			for by in bosses.clone() {
				v.push(Op::Trigger { by, id });
				v.push(Op::Start { by, id });
				for list in [vec![(1, 4)], vec![(1, 30), (2, 9)], vec![(2, 8), (2, 3)], vec![(4, 1), (5, 2), (3, 1)], vec![(3, u128::MAX - 4)], vec![(3, u128::MAX), (1, 1)], vec![]] {
					v.push(Op::Rewards { by, id, list });
				}
				if f != Focus::Pay {
					for assets in [vec![XRP], vec![A, ROOT], vec![A, VTX]] {
						v.push(Op::Prices { by, id, assets });
					}
				}
				if f != Focus::Redeem {
					v.push(Op::Disable { by, id });
				}
				if f == Focus::All {
					v.push(Op::Eras { by, id, a: 1, b: 1 });
					v.push(Op::Eras { by, id, a: 2, b: 1 });
					v.push(Op::Eras { by, id, a: 2, b: 7 });
				}
			}
			for by in [By::None, By::Acc(0), R] {
				v.push(Op::Pay { by, id });
			}
			if f != Focus::Pay {
				for w in [1, 2, 5, 0] {
					for q in [0, 1, 7, m.b(VTX, w), m.b(VTX, w) + 1] {
						v.push(Op::Redeem { by: By::Acc(w), id, q });
					}
				}
				v.push(Op::Redeem { by: R, id, q: 1 });
			}
		}
		for by in bosses {
			v.push(Op::Create { by });
		}
		if f == Focus::All {
			for by in [R, By::Acc(0), By::Acc(1), By::None] {
				for who in [0, 1] {
					v.push(Op::Admin { by, who });
				}
			}
		}
		for (asset, pot, q) in [(XRP, FEES, 10), (ROOT, ROOTS, 3), (A, FEES, 1), (ROOT, FEES, 4), (XRP, VAULT, 9)] {
			v.push(Op::Earn { asset, pot, q });
		}
		for validator in [true, false] {
			v.push(Op::Worker { validator });
		}
		v.push(Op::Block);
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Result<String, String> {
		let k = format!("{op:?}").split([' ', '{', '(']).next().unwrap().to_string();
		Ok(match lockstep(m, op)? {
			Ok(()) => format!("{k}: ok"),
			Err(e) => format!("{k}: {e}"),
		})
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)
	}
}
fn complete(x: &(usize, u128, usize)) -> Result<String, String> {
	// n accounts of which the first is registered `again` times more, in lists of `split`
	let (n, again, split) = *x;
	System::set_block_number(1);
	Assets::force_create(RuntimeOrigin::root(), VTX, acc(9), true, 1).unwrap();
	let person = |i: usize| create_account(10_000 + i as u64);
	Vortex::create_vtx_dist(RuntimeOrigin::root()).map_err(|e| format!("setup: {e:?}"))?;
	let mut list: Vec<(AccountId, u128)> = (0..n).map(|i| (person(i), 10 + i as u128)).collect();
	for k in 0..again {
		list.push((person(0), 3 + k));
	}
	let mut want: BTreeMap<AccountId, u128> = Default::default();
	for (w, q) in &list {
		want.insert(*w, *q);
	}
	for c in list.chunks(split) {
		call(|| Vortex::register_rewards(RuntimeOrigin::root(), 0, BoundedVec::truncate_from(c.to_vec()))).map_err(|e| format!("setup: {e}"))?;
	}
	call(|| Vortex::trigger_vtx_distribution(RuntimeOrigin::root(), 0).map(|_| ()).map_err(|e| e.error)).map_err(|e| format!("setup: {e}"))?;
	call(|| Vortex::start_vtx_dist(RuntimeOrigin::root(), 0)).map_err(|e| format!("setup: {e}"))?;
	let total: u128 = want.values().sum();
	req!(Assets::total_supply(VTX) == total, "minted: {} VTX for rewards of {total}", Assets::total_supply(VTX));
	let mut calls = 0;
	while st(VtxDistStatuses::<Test>::get(0)) == Paying {
		req!(calls <= n + 2, "done: {calls} payments for {n} accounts and no end");
		call(|| Vortex::pay_unsigned(RuntimeOrigin::none(), 0, 1)).map_err(|e| format!("payment: refused with {e}"))?;
		calls += 1;
	}
	for (w, q) in &want {
		let b = Assets::balance(VTX, *w);
		req!(b == *q, "payment: {w:?} has {b}, expected {q}");
	}
	req!(st(VtxDistStatuses::<Test>::get(0)) == Done, "done: status is {:?}", VtxDistStatuses::<Test>::get(0));
	Ok(format!("{}", n.min(3)))
}
/// Redemption at any scale: `q` of `all` VTX for `have` of an asset.
fn scale(x: &(u128, u128, u128)) -> Result<String, String> {
	let (q, all, have) = *x;
	let m = &mut genesis();
	let burnt = m.b(VTX, 5);
	Assets::burn_from(VTX, &acc(5), burnt, Precision::BestEffort, Fortitude::Force).map_err(|e| format!("setup: {e:?}"))?;
	m.bal.remove(&(VTX, 5));
	whole(m, 0, &[XRP, A], &[], Done);
	for (a, w, n) in [(VTX, 1, q), (VTX, 2, all - q), (XRP, VAULT, have), (A, VAULT, 5)] {
		if n > 0 {
			both(m, Op::Earn { asset: a, pot: w, q: n });
		}
	}
	match lockstep(m, &Op::Redeem { by: By::Acc(1), id: 0, q })? {
		Ok(()) => Ok(format!("{}", U256::from(q) * U256::from(have) > U256::from(u128::MAX))),
		Err(e) => Err(format!("admission: {e}")),
	}
}
use frame_support::traits::tokens::{Fortitude, Precision};
fn u01(c: &mut Ctx) {
	let b = c.pick(4, 5);
	c.bfs("payments", &S(Focus::Pay), depth(b));
	c.bfs("everything", &S(Focus::All), depth(c.pick(2, 4)));
	let top = c.pick(40, 200);
	let mut cases = vec![];
	for n in 0..=top {
		for again in [0, 1, 2] {
			for split in [1, 2, 300] {
				if n > 0 || again == 0 {
					cases.push((n, again as u128, split));
				}
			}
		}
	}
	c.enumerate("complete distributions: accounts, repetitions, lists", cases.into_iter(), complete);
	let mut v = vec![];
	for now in 0..4u64 {
		for cur in 0..6u64 {
			for st in 0..5u8 {
				v.push((now, cur, st));
			}
		}
	}
	c.enumerate("unsigned calls", v.into_iter(), |(now, cur, what)| {
		System::set_block_number(*now);
		let p = pallet_vortex_distribution::Call::<Test>::pay_unsigned { id: 0, current_block: *cur };
		let c = match what {
			0 => p,
			1 => pallet_vortex_distribution::Call::create_vtx_dist {},
			2 => pallet_vortex_distribution::Call::start_vtx_dist { id: 0 },
			3 => pallet_vortex_distribution::Call::trigger_vtx_distribution { id: 0 },
			_ => pallet_vortex_distribution::Call::redeem_tokens_from_vault { id: 0, vortex_token_amount: 1 },
		};
		let r = <Vortex as ValidateUnsigned>::validate_unsigned(TransactionSource::External, &c);
		let want = *what == 0 && cur <= now;
		req!(r.is_ok() == want, "unsigned: {c:?} in block {now} is valid: {}", r.is_ok());
		Ok(format!("{want}"))
	});
	c.assume("two accounts are paid per call (100 in the runtime)");
}
fn u02(c: &mut Ctx) {
	c.bfs("redemption", &S(Focus::Redeem), depth(c.pick(3, 4)));
	let g: Vec<u128> = [1u128, 3, 10, 1 << 32, 1_000_000_000_000, 1 << 63, 1 << 64, (1 << 64) + 1, 1_000_000_000_000_000_000_000_000, 1 << 100, 1 << 126].to_vec();
	let mut v = vec![];
	for q in &g {
		for all in &g {
			for have in &g {
				if q <= all {
					v.push((*q, *all, *have));
				}
			}
		}
	}
	c.enumerate("shares at any scale", v.into_iter(), scale);
	c.assume("the vault's assets other than the listed ones stay");
}
fn main() {
	explore::main(&[("U01", u01), ("U02", u02)]);
}
