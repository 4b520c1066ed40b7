//! Multi-currency checks: holds, asset administration, fee currency and fee pot.
use explore::*;
use frame_support::traits::{
	ReservableCurrency as _, BuildGenesisConfig as _, fungibles::roles::Inspect as _,
	fungibles::{Inspect, Mutate},
	Currency, ExistenceRequirement, Imbalance, OnUnbalanced, SignedImbalance, WithdrawReasons,
};
pub use seed_pallet_common::test_prelude::*;
use seed_pallet_common::*;
use sp_runtime::traits::AccountIdConversion;
use std::collections::BTreeMap;
construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		TxFeePot: pallet_tx_fee_pot,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
parameter_types! {
	pub const ParaId: seed_primitives::ParachainId = 100;
	pub const NativeAssetId: AssetId = ROOT_ASSET_ID;
	pub const AssetsExtPalletId: PalletId = PalletId(*b"assetext");
	pub const MaxHolds: u32 = 2;
	pub const TxFeePotId: PalletId = PalletId(*b"txfeepot");
	pub const XrpId: AssetId = XRP_ASSET_ID;
}
impl pallet_assets_ext::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type ParachainId = ParaId;
	type MaxHolds = MaxHolds;
	type NativeAssetId = NativeAssetId;
	type OnNewAssetSubscription = ();
	type PalletId = AssetsExtPalletId;
	type WeightInfo = ();
}
impl pallet_tx_fee_pot::Config for Test {
	type FeeCurrency = Xrp;
	type StakeCurrency = Balances;
	type TxFeePotId = TxFeePotId;
}
type Xrp = pallet_assets_ext::AssetCurrency<Test, XrpId>;
fn res(r: DispatchResult) -> Result<(), String> {
	r.map_err(|e| {
		let s = format!("{e:?}");
		s.split("message: Some(\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or(&s).to_string()
	})
}
fn call(f: impl FnOnce() -> DispatchResult) -> Result<(), String> {
	res(frame_support::storage::with_storage_layer(f))
}
const HOLDER: usize = 9;
const POT: usize = 8;
fn acc(i: usize) -> AccountId {
	match i {
		HOLDER => AssetsExtPalletId::get().into_account_truncating(),
		POT => TxFeePotId::get().into_account_truncating(),
		i => create_account(40 + i as u64),
	}
}
const ACC: [usize; 6] = [0, 1, 2, 3, POT, HOLDER];
const PALLETS: [PalletId; 3] = [PalletId(*b"mmmmmmmm"), PalletId(*b"aaaaaaaa"), PalletId(*b"zzzzzzzz")];
const ROOT: AssetId = ROOT_ASSET_ID;
const XRP: AssetId = XRP_ASSET_ID;
const A: AssetId = 7;
const B: AssetId = 8; // has a minimum balance of MIN
const MIN: u128 = 10;
fn min_of(a: AssetId) -> u128 {
	if a == B {
		MIN
	} else {
		1
	}
}
fn new_id(n: u32) -> AssetId {
	(n << 10) | 100
}
#[derive(Clone, Hash, Debug)]
struct Asset {
	owner: usize,
	name: u8,
	dec: u8,
	min: u128,
}
#[derive(Clone, Hash, Debug)]
struct M {
	bal: BTreeMap<(AssetId, usize), u128>,
	deposits: [u128; 4], // native reserved for created assets
	deposit: u128,
	holds: BTreeMap<(AssetId, usize, usize), u128>,
	assets: BTreeMap<AssetId, Asset>,
	next: u32,
	fees: u128,
	/// remainders below the minimum balance, which the assets pallet drops
	dust: u128,
}
type Pay = Vec<(usize, u128)>;
#[derive(Clone, Debug)]
enum Op {
	Place { p: usize, who: usize, a: AssetId, q: u128 },
	Release { p: usize, who: usize, a: AssetId, q: u128 },
	Spend { p: usize, who: usize, a: AssetId, to: Pay },
	Split { who: usize, a: AssetId, to: Pay },
	Transfer { who: usize, a: AssetId, to: usize, q: u128, keep: bool },
	Mint { who: usize, a: AssetId, to: usize, q: u128 },
	Burn { who: usize, a: AssetId, from: usize, q: u128 },
	Create { who: usize, owner: Option<usize>, name: u8, dec: u8, min: Option<u128> },
	Deposit { root: bool, q: u128 },
	/// fee settlement as the runtime does it: withdraw, refund, split off a tip, hand both to the pot
	Fee { who: usize, fee: u128, refund: u128, tip: u128, keep: bool },
	Withdraw { who: usize, q: u128, keep: bool },
	DepositFee { who: usize, q: u128, create: bool },
	SetFree { who: usize, q: u128 },
	MoveFee { who: usize, to: usize, q: u128, keep: bool },
	Era,
}
impl M {
	fn b(&self, a: AssetId, who: usize) -> u128 {
		self.bal.get(&(a, who)).cloned().unwrap_or(0)
	}
	fn free(&self, a: AssetId, who: usize, keep: bool) -> u128 {
		let stay = keep || (a == ROOT && who < 4 && self.deposits[who] > 0);
		self.b(a, who).saturating_sub(if stay { min_of(a) } else { 0 })
	}
	fn mv(&mut self, a: AssetId, from: usize, to: usize, q: u128, keep: bool) -> Option<()> {
		if !self.assets.contains_key(&a) && a != ROOT || q > self.free(a, from, keep) {
			return None;
		}
		if q == 0 && a == ROOT || from == to {
			return Some(());
		}
		if self.b(a, to) == 0 && q < min_of(a) {
			return None;
		}
		if q == 0 {
			return Some(());
		}
		let rest = self.bal.get_mut(&(a, from))?;
		*rest -= q;
		if *rest < min_of(a) {
			self.dust += *rest;
			*rest = 0;
		}
		*self.bal.entry((a, to)).or_default() += q;
		Some(())
	}
	/// Holds are never left with an amount the assets pallet would drop.
	fn hold_ok(&self, a: AssetId, q: u128) -> Option<()> {
		(q == 0 || q >= min_of(a)).then_some(())
	}
	fn supply(&self, a: AssetId) -> u128 {
		ACC.iter().map(|i| self.b(a, *i)).sum::<u128>() + if a == ROOT { self.deposits.iter().sum::<u128>() } else { 0 } + if a == B { self.dust } else { 0 }
	}
	fn apply(&mut self, op: &Op) -> Option<()> {
		match op {
			Op::Place { p, who, a, q } => {
				if !self.holds.contains_key(&(*a, *who, *p)) && (0..3).filter(|x| self.holds.contains_key(&(*a, *who, *x))).count() == 2 {
					return None;
				}
				self.hold_ok(*a, *q)?;
				self.mv(*a, *who, HOLDER, *q, false)?;
				*self.holds.entry((*a, *who, *p)).or_default() += q;
			},
			Op::Release { p, who, a, q } => {
				let h = self.holds.get_mut(&(*a, *who, *p))?;
				*h = h.checked_sub(*q)?;
				let left = *h;
				if left == 0 {
					self.holds.remove(&(*a, *who, *p));
				}
				self.hold_ok(*a, left)?;
				self.mv(*a, HOLDER, *who, *q, false)?;
			},
			Op::Spend { p, who, a, to } => {
				let t: u128 = to.iter().map(|x| x.1).sum();
				let h = self.holds.get_mut(&(*a, *who, *p))?;
				*h = h.checked_sub(t)?;
				let left = *h;
				if left == 0 {
					self.holds.remove(&(*a, *who, *p));
				}
				self.hold_ok(*a, left)?;
				for (w, q) in to.iter().filter(|x| x.1 > 0) {
					self.mv(*a, HOLDER, *w, *q, false)?;
				}
			},
			Op::Split { who, a, to } => {
				if to.iter().map(|x| x.1).sum::<u128>() > self.free(*a, *who, false) {
					return None;
				}
				for (w, q) in to.iter().filter(|x| x.1 > 0) {
					self.mv(*a, *who, *w, *q, false)?;
				}
			},
			Op::Transfer { who, a, to, q, keep } => self.mv(*a, *who, *to, *q, *keep)?,
			Op::Mint { who, a, to, q } => {
				if *a == ROOT || self.assets.get(a)?.owner != *who || self.supply(*a).checked_add(*q).is_none() {
					return None;
				}
				*self.bal.entry((*a, *to)).or_default() += q;
			},
			Op::Burn { who, a, from, q } => {
				if *a == ROOT || self.assets.get(a)?.owner != *who {
					return None;
				}
				if self.b(*a, *from) == 0 {
					return None;
				}
				let b = self.bal.get_mut(&(*a, *from))?;
				*b -= (*b).min(*q);
			},
			Op::Create { who, owner, name, dec, min } => {
				if *dec > 18 || *min == Some(0) || *name > 50 {
					return None;
				}
				if self.deposit > 0 {
					if self.deposit >= self.b(ROOT, *who) {
						return None;
					}
					*self.bal.get_mut(&(ROOT, *who))? -= self.deposit;
					self.deposits[*who] += self.deposit;
				}
				self.assets.insert(new_id(self.next), Asset { owner: owner.unwrap_or(*who), name: *name, dec: *dec, min: min.unwrap_or(1) });
				self.next += 1;
			},
			Op::Deposit { root, q } => {
				root.then_some(())?;
				self.deposit = *q;
			},
			Op::Fee { who, fee, refund, tip: _, keep } => {
				if *fee > self.free(XRP, *who, *keep) {
					return None;
				}
				let r = (*refund).min(*fee);
				*self.bal.entry((XRP, *who)).or_default() -= fee - r;
				*self.bal.entry((XRP, POT)).or_default() += fee - r;
				self.fees += fee - r;
			},
			Op::Withdraw { who, q, keep } => {
				if *q > self.free(XRP, *who, *keep) {
					return None;
				}
				*self.bal.entry((XRP, *who)).or_default() -= q;
			},
			Op::DepositFee { who, q, create } => {
				if self.supply(XRP).checked_add(*q).is_none() {
					return create.then_some(());
				}
				*self.bal.entry((XRP, *who)).or_default() += q;
			},
			Op::SetFree { who, q } => {
				if *q > self.b(XRP, *who) && self.supply(XRP).checked_add(*q - self.b(XRP, *who)).is_none() {
					return Some(());
				}
				self.bal.insert((XRP, *who), *q);
			},
			Op::MoveFee { who, to, q, keep } => self.mv(XRP, *who, *to, *q, *keep)?,
			Op::Era => self.fees = 0,
		}
		self.bal.retain(|_, v| *v > 0);
		Some(())
	}
}
fn req_of(keep: bool) -> ExistenceRequirement {
	if keep {
		ExistenceRequirement::KeepAlive
	} else {
		ExistenceRequirement::AllowDeath
	}
}
fn exec(op: &Op) -> Result<(), String> {
	let s = |w: &usize| RuntimeOrigin::signed(acc(*w));
	let pay = |v: &Pay| v.iter().map(|x| (acc(x.0), x.1)).collect::<Vec<_>>();
	let all = WithdrawReasons::all();
	call(|| match op {
		Op::Place { p, who, a, q } => AssetsExt::place_hold(PALLETS[*p], &acc(*who), *a, *q),
		Op::Release { p, who, a, q } => AssetsExt::release_hold(PALLETS[*p], &acc(*who), *a, *q),
		Op::Spend { p, who, a, to } => AssetsExt::spend_hold(PALLETS[*p], &acc(*who), *a, &pay(to)),
		Op::Split { who, a, to } => AssetsExt::split_transfer(&acc(*who), *a, &pay(to)),
		Op::Transfer { who, a, to, q, keep } => AssetsExt::transfer(s(who), *a, acc(*to), *q, *keep),
		Op::Mint { who, a, to, q } => AssetsExt::mint(s(who), *a, acc(*to), *q),
		Op::Burn { who, a, from, q } => AssetsExt::burn_from(s(who), *a, acc(*from), *q),
		Op::Create { who, owner, name, dec, min } => AssetsExt::create_asset(s(who), vec![b'n'; *name as usize], vec![b's'; 3], *dec, *min, owner.map(acc)),
		Op::Deposit { root, q } => AssetsExt::set_asset_deposit(if *root { RuntimeOrigin::root() } else { s(&0) }, *q),
		Op::Fee { who, fee, refund, tip, keep } => {
			let paid = <Xrp as Currency<AccountId>>::withdraw(&acc(*who), *fee, all, req_of(*keep))?;
			let back = <Xrp as Currency<AccountId>>::deposit_into_existing(&acc(*who), (*refund).min(*fee)).unwrap_or_else(|_| Imbalance::zero());
			let rest = paid.offset(back).same().map_err(|_| DispatchError::Other("negative fee"))?;
			let tip = (*tip).min(rest.peek());
			let (tip, fee) = rest.split(tip);
			<TxFeePot as OnUnbalanced<_>>::on_unbalanceds(Some(fee).into_iter().chain(Some(tip)));
			Ok(())
		},
		Op::Withdraw { who, q, keep } => <Xrp as Currency<AccountId>>::withdraw(&acc(*who), *q, all, req_of(*keep)).map(|_| ()),
		Op::DepositFee { who, q, create: true } => {
			let _ = <Xrp as Currency<AccountId>>::deposit_creating(&acc(*who), *q);
			Ok(())
		},
		Op::DepositFee { who, q, .. } => <Xrp as Currency<AccountId>>::deposit_into_existing(&acc(*who), *q).map(|_| ()),
		Op::SetFree { who, q } => {
			match <Xrp as Currency<AccountId>>::make_free_balance_be(&acc(*who), *q) {
				SignedImbalance::Positive(p) => drop(p),
				SignedImbalance::Negative(p) => drop(p),
			};
			Ok(())
		},
		Op::MoveFee { who, to, q, keep } => <Xrp as Currency<AccountId>>::transfer(&acc(*who), &acc(*to), *q, req_of(*keep)),
		Op::Era => {
			let want = TxFeePot::era_pot_balance();
			let got = <TxFeePot as pallet_staking::EraPayout<u128>>::era_payout(5, 6, 7);
			(got == (want, 0)).then_some(()).ok_or(DispatchError::Other("era payout differs from the fees collected"))
		},
	})
}
fn check(m: &M) -> Check {
	for a in [ROOT, XRP, A, B, new_id(m.next), new_id(m.next + 1), 12345].into_iter().chain(m.assets.keys().cloned()) {
		let exists = a == ROOT || m.assets.contains_key(&a);
		req!(<AssetsExt as Inspect<AccountId>>::asset_exists(a) == exists && <AssetsExt as InspectExt>::exists(a) == exists, "assets: {a} exists: {}", !exists);
		let s = <AssetsExt as Inspect<AccountId>>::total_issuance(a);
		req!(s == m.supply(a), "issuance: of asset {a} is {s}, accounts own {}", m.supply(a));
		for i in ACC {
			let b = <AssetsExt as Inspect<AccountId>>::balance(a, &acc(i));
			req!(b == m.b(a, i), "balance: of account {i} in asset {a} is {b}, expected {}", m.b(a, i));
			for p in 0..if i < 4 && a <= B { 3 } else { 0 } {
				let h = AssetsExt::hold_balance(&PALLETS[p], &acc(i), &a);
				let w = m.holds.get(&(a, i, p)).cloned().unwrap_or(0);
				req!(h == w, "holds: pallet {p} holds {h} of asset {a} for account {i}, expected {w}");
			}
		}
		let held: u128 = m.holds.iter().filter(|(k, _)| k.0 == a).map(|x| *x.1).sum();
		req!(<AssetsExt as Inspect<AccountId>>::balance(a, &acc(HOLDER)) >= held, "backing: {held} of asset {a} is held but the holding account owns less");
		if let Some(x) = m.assets.get(&a) {
			if ![XRP, A, B].contains(&a) {
				use frame_support::traits::fungibles::metadata::Inspect as Meta;
				req!(<AssetsExt as Meta<AccountId>>::name(a) == vec![b'n'; x.name as usize] && <AssetsExt as Meta<AccountId>>::symbol(a) == b"sss" && <AssetsExt as Meta<AccountId>>::decimals(a) == x.dec, "metadata: of asset {a}");
				req!(<AssetsExt as Inspect<AccountId>>::minimum_balance(a) == x.min, "minimum balance: of asset {a}");
				req!(Assets::owner(a) == Some(acc(x.owner)), "asset owner: of {a} is not {}", x.owner);
			}
		}
	}
	for i in 0..4 {
		let r = pallet_balances::Pallet::<Test>::reserved_balance(&acc(i));
		req!(r == m.deposits[i], "deposit: account {i} has {r} reserved, expected {}", m.deposits[i]);
	}
	req!(pallet_assets_ext::AssetDeposit::<Test>::get() == m.deposit, "deposit: the asset deposit changed");
	req!(TxFeePot::era_pot_balance() == m.fees, "fee pot: era fees are {}, {} were paid", TxFeePot::era_pot_balance(), m.fees);
	Ok(())
}
#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Holds,
	Admin,
	Fees,
	Minimum,
}
struct S(Focus, bool);
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		match self.0 {
			Focus::Holds => 3,
			Focus::Minimum => 1,
			_ => 4,
		}
	}
	fn init(&self, i: usize) -> M {
		System::set_block_number(1);
		pallet_assets_ext::GenesisConfig::<Test>::default().build();
		let mut m = M { bal: Default::default(), deposits: [0; 4], deposit: 0, holds: Default::default(), assets: Default::default(), next: 1, fees: 0, dust: 0 };
		for a in [XRP, A, B] {
			Assets::force_create(RuntimeOrigin::root(), a, acc(0), true, min_of(a)).unwrap();
			m.assets.insert(a, Asset { owner: 0, name: 0, dec: 0, min: min_of(a) });
		}
		for (a, w, q) in [(ROOT, 0, 30), (ROOT, 1, 20), (XRP, 0, 12), (XRP, 1, 8), (A, 0, 10), (A, 1, 6), (B, 0, 60), (B, 1, 40)] {
			AssetsExt::mint_into(a, &acc(w), q).unwrap();
			m.bal.insert((a, w), q);
		}
		let mut run = |op: Op| {
			m.apply(&op).expect("setup refused by the reference");
			exec(&op).expect("setup");
		};
		if self.0 == Focus::Holds {
			if i >= 1 {
				for a in [ROOT, A] {
					run(Op::Place { p: 0, who: 0, a, q: 4 });
					run(Op::Place { p: 1, who: 0, a, q: 3 });
					run(Op::Place { p: 0, who: 1, a, q: 2 });
				}
			}
			if i == 2 {
				run(Op::Mint { who: 0, a: A, to: 2, q: u128::MAX / 2 - 20 });
				run(Op::Place { p: 0, who: 2, a: A, q: u128::MAX / 2 - 30 });
				run(Op::Transfer { who: 1, a: A, to: HOLDER, q: 1, keep: true });
			}
		} else if i >= 2 && self.0 != Focus::Minimum {
			// many ids have been given out
			m.next = [255, 65_535][i - 2];
			frame_support::storage::unhashed::put(&frame_support::storage::storage_prefix(b"AssetsExt", b"NextAssetId"), &m.next);
			for _ in 0..3 {
				let op = Op::Create { who: 1, owner: Some(0), name: 5, dec: 6, min: None };
				m.apply(&op).expect("setup refused by the reference");
				exec(&op).expect("setup");
			}
		} else if i == 1 {
			run(Op::Deposit { root: true, q: 7 });
			run(Op::Create { who: 1, owner: None, name: 5, dec: 6, min: None });
			run(Op::Mint { who: 0, a: XRP, to: 2, q: u128::MAX / 2 - 24 });
			run(Op::Fee { who: 0, fee: 3, refund: 1, tip: 0, keep: false });
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let (f, rich) = (self.0, self.1);
		let mut v = vec![];
		let pays: Vec<Pay> = vec![vec![], vec![(1, 2)], vec![(1, 1), (2, 3)], vec![(0, 2), (3, 0), (1, 2)], vec![(2, 4), (2, 3)], vec![(3, 10), (1, 3)], vec![(1, 5), (2, 16)]];
		if f == Focus::Holds || rich {
			for a in [ROOT, A, 99] {
				for who in 0..3 {
					for p in 0..3 {
						for q in [0, 1, 4, 7] {
							v.push(Op::Place { p, who, a, q });
							v.push(Op::Release { p, who, a, q });
						}
						if p < 2 && a != 99 {
							for to in &pays {
								v.push(Op::Spend { p, who, a, to: to.clone() });
							}
						}
					}
					for to in &pays {
						v.push(Op::Split { who, a, to: to.clone() });
					}
				}
			}
			for who in 0..2 {
				v.push(Op::Place { p: 0, who, a: A, q: u128::MAX });
				v.push(Op::Release { p: 0, who: 2, a: A, q: u128::MAX / 2 - 30 });
				for q in [3, 10, 20, 30] {
					v.push(Op::Transfer { who, a: A, to: 2, q, keep: false });
					v.push(Op::Transfer { who, a: ROOT, to: 3, q, keep: false });
				}
			}
		}
		if f == Focus::Minimum || rich {
			for who in 0..2 {
				for p in 0..2 {
					for q in [0, 3, 7, 10, 13, 27, 40] {
						v.push(Op::Place { p, who, a: B, q });
						v.push(Op::Release { p, who, a: B, q });
					}
					for to in [vec![(2, 10)], vec![(1, 10), (0, 3)], vec![(2, 7)], vec![(2, 11), (0, 2)], vec![(1, 17), (2, 10)]] {
						v.push(Op::Spend { p, who, a: B, to });
					}
				}
				for q in [9, 10, 20, 35] {
					v.push(Op::Transfer { who, a: B, to: 2, q, keep: false });
					v.push(Op::Transfer { who, a: B, to: 1 - who, q, keep: true });
				}
			}
		}
		if f == Focus::Admin || rich {
			for &a in [ROOT, A, new_id(99)].iter().chain(m.assets.keys().filter(|k| ![XRP, A, B].contains(k)).take(2)) {
				for who in 0..3 {
					for q in [1, 5, u128::MAX] {
						if q < 9 || a <= A {
							v.push(Op::Mint { who, a, to: 2, q });
						}
						v.push(Op::Burn { who, a, from: 1, q });
						v.push(Op::Burn { who, a, from: 2, q });
					}
					for q in [1, 5, 9, 10, 19, 20, 30] {
						for keep in [false, true] {
							v.push(Op::Transfer { who, a, to: (who + 1) % 3, q, keep });
						}
					}
				}
			}
			for who in 0..3 {
				for dec in [0, 6, 18, 19, 255] {
					if m.next % 255 < 4 {
						v.push(Op::Create { who, owner: None, name: 4, dec, min: None });
					}
				}
				if m.next % 255 < 4 {
					for (owner, name, min) in [(Some(2), 50, Some(1)), (None, 51, None), (None, 1, Some(0)), (Some(0), 3, Some(1))] {
						v.push(Op::Create { who, owner, name, dec: 1, min });
					}
				}
			}
			for root in [true, false] {
				for q in [0, 6, 19, 21] {
					v.push(Op::Deposit { root, q });
				}
			}
		}
		if f == Focus::Fees || rich {
			for who in 0..3 {
				for keep in [false, true] {
					for fee in [0, 1, 5, 8, 12] {
						for refund in [0, 1, 5, 8] {
							for tip in [0, 2, 20] {
								if refund <= fee && (tip < 20 || refund == 1) {
									v.push(Op::Fee { who, fee, refund, tip, keep });
								}
							}
						}
					}
					for q in [0, 3, 8, 12] {
						v.push(Op::Withdraw { who, q, keep });
						v.push(Op::MoveFee { who, to: (who + 1) % 3, q, keep });
					}
				}
				for q in [0, 1, 9, u128::MAX] {
					v.push(Op::DepositFee { who, q, create: false });
					v.push(Op::DepositFee { who, q, create: true });
				}
				for q in [0, 1, 8, 13, u128::MAX] {
					v.push(Op::SetFree { who, q });
				}
			}
			v.push(Op::DepositFee { who: 3, q: 4, create: true });
			v.push(Op::Era);
		}
		// an issuance at the very end of the number range is not reachable with real funds
		v.retain(|o| !matches!(o, Op::DepositFee { q: u128::MAX, .. } if m.supply(XRP) == 0) && !matches!(o, Op::SetFree { who, q: u128::MAX } if m.supply(XRP) == m.b(XRP, *who)));
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let h = shim::ext::state_hash();
		let mut want = m.clone();
		let ok = want.apply(op).is_some();
		let r = exec(op);
		let kind = format!("{op:?}").split([' ', '{']).next().unwrap().to_string();
		if let Err(e) = &r {
			req!(shim::ext::state_hash() == h, "atomicity: refused {kind} ({e}) changed the state");
		}
		match (&r, ok) {
			(Ok(()), false) => return Err(format!("admission: {kind} was accepted but must be refused")),
			(Err(e), true) => return Err(format!("admission: {kind} was refused with {e} but must succeed")),
			(Ok(()), true) => *m = want,
			_ => {},
		}
		check(m)?;
		Ok(format!("{kind}: {}", r.err().unwrap_or("ok".into())))
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)
	}
}
fn holds(c: &mut Ctx) {
	run(c, Focus::Holds, (2, 3), (1, 2));
	let b = c.pick(3, 4);
	c.bfs("asset with a minimum balance", &S(Focus::Minimum, false), depth(b));
}
fn run(c: &mut Ctx, f: Focus, d: (usize, usize), rich: (usize, usize)) {
	c.assume("at most two simultaneous holds per account and asset (16 in production), so that the limit is reached within the depth");
	let b = c.pick(d.0, d.1);
	c.bfs("focused alphabet", &S(f, false), depth(b));
	let b = c.pick(rich.0, rich.1);
	c.bfs("full alphabet", &S(f, true), depth(b));
}
fn main() {
	explore::main(&[
		("A01", holds),
		("A02", |c| run(c, Focus::Admin, (2, 3), (1, 2))),
		("A03", |c| run(c, Focus::Fees, (2, 3), (1, 2))),
	]);
}
