//! DEX: lock-step exploration of the real pallet against an independent constant-product reference.
use explore::*;
use frame_support::traits::fungibles::{Inspect, Mutate};
use frame_support::traits::tokens::Preservation;
use seed_pallet_common::test_prelude::*;
use seed_pallet_common::CreateExt;
use std::collections::BTreeMap;

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Dex: pallet_dex,
	}
);
use seed_pallet_common::*;
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
parameter_types! {
	pub const GetExchangeFee: (u32, u32) = (3, 1000);
	pub const TradingPathLimit: u32 = 3;
	pub const DEXBurnPalletId: PalletId = PalletId(*b"burnaddr");
	pub const LPTokenDecimals: u8 = 6;
	pub const TxFeePotId: PalletId = PalletId(*b"txfeepot");
	pub const DefaultFeeTo: Option<PalletId> = Some(TxFeePotId::get());
}
impl pallet_dex::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type GetExchangeFee = GetExchangeFee;
	type TradingPathLimit = TradingPathLimit;
	type DEXBurnPalletId = DEXBurnPalletId;
	type LPTokenDecimals = LPTokenDecimals;
	type DefaultFeeTo = DefaultFeeTo;
	type WeightInfo = ();
	type MultiCurrency = AssetsExt;
}
mod quotes;
use pallet_dex::types::TradingPair;
use pallet_dex::TradingPairStatus;
use sp_core::U256;

const ALICE: usize = 0;
const BOB: usize = 1;
const BURN: usize = 2;
const FEE: usize = 3;
const POOL: usize = 4; // POOL, POOL+1
const NACC: usize = 6;
/// assets 0,1,2 are the traded ones; 3,4 the LP tokens of pairs (0,1) and (1,2)
const NA: usize = 5;
const PAIRS: [(usize, usize); 2] = [(0, 1), (1, 2)];
const BLOCK: u64 = 10;

fn acc(i: usize) -> AccountId {
	use sp_runtime::traits::AccountIdConversion;
	match i {
		ALICE => create_account(1001),
		BOB => create_account(1002),
		BURN => DEXBurnPalletId::get().into_account_truncating(),
		FEE => TxFeePotId::get().into_account_truncating(),
		p => {
			// 0xdddddddd ++ low id ++ high id ++ 8 zero bytes
			let (a, b) = PAIRS[p - POOL];
			let (a, b) = (asset(a), asset(b));
			let (a, b) = (a.min(b), a.max(b));
			let mut v = vec![0xdd; 4];
			v.extend(a.to_be_bytes());
			v.extend(b.to_be_bytes());
			v.extend([0; 8]);
			AccountId::from(H160::from_slice(&v))
		},
	}
}
/// asset ids: deliberately out of order so that pair (1,2) is stored swapped w.r.t. our indices.
fn asset(i: usize) -> AssetId {
	[100, 1124, 2, 0, 0][i]
}
fn lp_id(pair: usize) -> Option<AssetId> {
	let (a, b) = PAIRS[pair];
	pallet_dex::TradingPairLPToken::<Test>::get(TradingPair::new(asset(a), asset(b)))
}
#[derive(Clone, Hash, Debug, PartialEq, Eq)]
struct Pair {
	exists: bool,
	enabled: bool,
	r: [u128; 2],
	lastk: u128,
}
#[derive(Clone, Hash, Debug)]
struct M {
	bal: [[u128; NA]; NACC],
	pair: [Pair; 2],
	fee_to: Option<usize>,
}
#[derive(Clone, Debug)]
enum Op {
	/// who, first asset, second asset, desired, desired, min, min, to, deadline
	Add { who: usize, x: usize, y: usize, dx: u128, dy: u128, mx: u128, my: u128, to: Option<usize>, deadline: Option<u64> },
	Remove { who: usize, x: usize, y: usize, liq: u128, mx: u128, my: u128, to: Option<usize>, deadline: Option<u64> },
	Supply { who: usize, path: Vec<usize>, amt: u128, min: u128, to: Option<usize>, deadline: Option<u64> },
	Target { who: usize, path: Vec<usize>, amt: u128, max: u128, to: Option<usize>, deadline: Option<u64> },
	Donate { pair: usize, side: usize, amt: u128 },
	SendLp { pair: usize, from: usize, to: usize, amt: u128 },
	FeeTo { root: bool, to: Option<usize> },
	Status { root: bool, x: usize, y: usize, enable: bool },
}
fn pair_of(x: usize, y: usize) -> Option<(usize, bool)> {
	PAIRS.iter().position(|p| *p == (x, y)).map(|i| (i, false)).or_else(|| PAIRS.iter().position(|p| *p == (y, x)).map(|i| (i, true)))
}
fn isqrt(n: u128) -> u128 {
	if n < 2 {
		return n;
	}
	let (mut lo, mut hi) = (1u128, 1u128 << 64);
	while hi - lo > 1 {
		let m = lo + (hi - lo) / 2;
		if m.checked_mul(m).map_or(false, |q| q <= n) {
			lo = m
		} else {
			hi = m
		}
	}
	lo
}
fn out_for(i: u128, rin: u128, rout: u128) -> Option<u128> {
	(i > 0 && rin > 0 && rout > 0).then(|| i * 997 * rout / (rin * 1000 + i * 997))
}
fn in_for(o: u128, rin: u128, rout: u128) -> Option<u128> {
	(o > 0 && rin > 0 && rout > o).then(|| rin * o * 1000 / ((rout - o) * 997) + 1)
}
impl M {
	fn supply(&self, asset: usize) -> u128 {
		self.bal.iter().map(|b| b[asset]).sum()
	}
	fn mv(&mut self, a: usize, from: usize, to: usize, v: u128) -> Option<()> {
		self.bal[from][a] = self.bal[from][a].checked_sub(v)?;
		self.bal[to][a] += v;
		Some(())
	}
	fn sync(&mut self, p: usize) {
		let (a, b) = PAIRS[p];
		self.pair[p].r = [self.bal[POOL + p][a], self.bal[POOL + p][b]];
	}
	fn k(&self, p: usize) -> u128 {
		self.pair[p].r[0] * self.pair[p].r[1]
	}
	fn settle_k(&mut self, p: usize) {
		self.pair[p].lastk = if self.fee_to.is_some() { self.k(p) } else { 0 };
	}
	fn mint_fee(&mut self, p: usize) {
		if let (Some(f), true) = (self.fee_to, self.pair[p].lastk > 0) {
			let (rk, rl) = (isqrt(self.k(p)), isqrt(self.pair[p].lastk));
			if rk > rl {
				self.bal[f][3 + p] += self.supply(3 + p) * (rk - rl) / (rk * 5 + rl);
			}
		}
	}
	/// The reference semantics; `None` means the operation must be refused and change nothing.
	fn apply(&mut self, op: &Op) -> Option<()> {
		let dl = |d: &Option<u64>| d.map_or(true, |d| d >= BLOCK);
		match op {
			Op::Add { who, x, y, dx, dy, mx, my, to, deadline } => {
				let (p, sw) = pair_of(*x, *y)?;
				if !dl(deadline) || *dx == 0 || *dy == 0 {
					return None;
				}
				let (da, db, ma, mb) = if sw { (*dy, *dx, *my, *mx) } else { (*dx, *dy, *mx, *my) };
				let (a, b) = PAIRS[p];
				if self.pair[p].exists && !self.pair[p].enabled {
					return None;
				}
				let [ra, rb] = self.pair[p].r;
				let (xa, xb) = if ra == 0 && rb == 0 {
					(da, db)
				} else {
					if ra == 0 || rb == 0 {
						return None;
					}
					let ob = da * rb / ra;
					if sw {
						// the pair's own first token decides which amount is capped first
					}
					if first_is_low(p) {
						if ob <= db {
							if ob < mb {
								return None;
							}
							(da, ob)
						} else {
							let oa = db * ra / rb;
							if oa < ma {
								return None;
							}
							(oa, db)
						}
					} else {
						let oa = db * ra / rb;
						if oa <= da {
							if oa < ma {
								return None;
							}
							(oa, db)
						} else {
							if ob < mb {
								return None;
							}
							(da, ob)
						}
					}
				};
				self.mv(a, *who, POOL + p, xa)?;
				self.mv(b, *who, POOL + p, xb)?;
				let (na, nb) = (self.bal[POOL + p][a] - ra, self.bal[POOL + p][b] - rb);
				let s = self.supply(3 + p);
				let liq = if s == 0 {
					let l = isqrt(na * nb).checked_sub(1000)?;
					self.bal[BURN][3 + p] += 1000;
					l
				} else {
					(na * s / ra).min(nb * s / rb)
				};
				if liq == 0 {
					return None;
				}
				self.bal[to.unwrap_or(*who)][3 + p] += liq;
				self.pair[p].exists = true;
				self.pair[p].enabled = true;
				self.sync(p);
				self.settle_k(p);
			},
			Op::Remove { who, x, y, liq, mx, my, to, deadline } => {
				let (p, sw) = pair_of(*x, *y)?;
				if !dl(deadline) || !self.pair[p].exists {
					return None;
				}
				let (ma, mb) = if sw { (*my, *mx) } else { (*mx, *my) };
				let (a, b) = PAIRS[p];
				self.mv(3 + p, *who, POOL + p, *liq)?;
				let l = self.bal[POOL + p][3 + p];
				let s = self.supply(3 + p);
				let (oa, ob) = (l * self.bal[POOL + p][a] / s, l * self.bal[POOL + p][b] / s);
				if oa == 0 || ob == 0 || oa < ma || ob < mb {
					return None;
				}
				self.bal[POOL + p][3 + p] = 0;
				let to = to.unwrap_or(*who);
				self.mv(a, POOL + p, to, oa)?;
				self.mv(b, POOL + p, to, ob)?;
				self.sync(p);
				self.settle_k(p);
			},
			Op::Supply { who, path, amt, min, to, deadline } => {
				if !dl(deadline) {
					return None;
				}
				let am = self.quote_out(path, *amt)?;
				if *am.last().unwrap() < *min {
					return None;
				}
				self.swap(*who, path, &am, to.unwrap_or(*who))?;
			},
			Op::Target { who, path, amt, max, to, deadline } => {
				if !dl(deadline) {
					return None;
				}
				let am = self.quote_in(path, *amt)?;
				if am[0] > *max {
					return None;
				}
				self.swap(*who, path, &am, to.unwrap_or(*who))?;
			},
			Op::Donate { pair, side, amt } => {
				let a = if *side == 0 { PAIRS[*pair].0 } else { PAIRS[*pair].1 };
				self.mv(a, BOB, POOL + pair, *amt)?;
			},
			Op::SendLp { pair, from, to, amt } => self.mv(3 + pair, *from, *to, *amt)?,
			Op::FeeTo { root, to } => {
				if !root {
					return None;
				}
				self.fee_to = *to;
			},
			Op::Status { root, x, y, enable } => {
				let (p, _) = pair_of(*x, *y)?;
				if !root || !self.pair[p].exists || self.pair[p].enabled == *enable {
					return None;
				}
				self.pair[p].enabled = *enable;
			},
		}
		Some(())
	}
	fn hop(&self, x: usize, y: usize) -> Option<(u128, u128)> {
		let (p, sw) = pair_of(x, y)?;
		let q = &self.pair[p];
		if !q.exists || !q.enabled || q.r[0] == 0 || q.r[1] == 0 {
			return None;
		}
		Some(if sw { (q.r[1], q.r[0]) } else { (q.r[0], q.r[1]) })
	}
	fn quote_out(&self, path: &[usize], amt: u128) -> Option<Vec<u128>> {
		if path.len() < 2 || path.len() > 3 {
			return None;
		}
		let mut v = vec![amt];
		for w in path.windows(2) {
			let (ri, ro) = self.hop(w[0], w[1])?;
			let o = out_for(*v.last().unwrap(), ri, ro)?;
			if o == 0 {
				return None;
			}
			v.push(o);
		}
		Some(v)
	}
	fn quote_in(&self, path: &[usize], amt: u128) -> Option<Vec<u128>> {
		if path.len() < 2 || path.len() > 3 {
			return None;
		}
		let mut v = vec![amt];
		for w in path.windows(2).rev() {
			let (ri, ro) = self.hop(w[0], w[1])?;
			v.push(in_for(*v.last().unwrap(), ri, ro)?);
		}
		v.reverse();
		Some(v)
	}
	fn swap(&mut self, who: usize, path: &[usize], am: &[u128], to: usize) -> Option<()> {
		if path.len() == 3 && path[0] == path[2] {
			return None; // a round trip through one pool offers no input to its second hop
		}
		let pid = |i: usize| pair_of(path[i], path[i + 1]).unwrap().0;
		self.mv(path[0], who, POOL + pid(0), am[0])?;
		for i in 0..path.len() - 1 {
			let p = pid(i);
			let dest = if i + 2 < path.len() { POOL + pid(i + 1) } else { to };
			self.mv(path[i + 1], POOL + p, dest, am[i + 1])?;
			self.sync(p);
			if self.fee_to.is_some() {
				self.mint_fee(p);
				self.settle_k(p);
			}
		}
		Some(())
	}
}
/// is the pair's first index (as we name it) the lower asset id?
fn first_is_low(p: usize) -> bool {
	asset(PAIRS[p].0) < asset(PAIRS[p].1)
}
fn actual() -> M {
	let mut m = M { bal: Default::default(), pair: std::array::from_fn(|_| Pair { exists: false, enabled: false, r: [0, 0], lastk: 0 }), fee_to: None };
	for i in 0..NACC {
		for a in 0..3 {
			m.bal[i][a] = AssetsExt::balance(asset(a), &acc(i));
		}
		for p in 0..2 {
			if let Some(l) = lp_id(p) {
				m.bal[i][3 + p] = AssetsExt::balance(l, &acc(i));
			}
		}
	}
	for p in 0..2 {
		let (a, b) = (asset(PAIRS[p].0), asset(PAIRS[p].1));
		let (ra, rb) = Dex::get_liquidity(a, b);
		m.pair[p].r = [ra, rb];
		m.pair[p].exists = lp_id(p).is_some();
		m.pair[p].enabled = Dex::get_trading_pair_status(a, b) == TradingPairStatus::Enabled;
	}
	let f = pallet_dex::FeeTo::<Test>::get();
	m.fee_to = (0..NACC).find(|i| f == Some(acc(*i)));
	m
}
fn diff(want: &M, got: &M) -> Check {
	let names = ["alice", "bob", "burn", "feepot", "pool0", "pool1"];
	for i in 0..NACC {
		for a in 0..NA {
			req!(want.bal[i][a] == got.bal[i][a], "balance of {} in asset {a}: expected {} got {}", names[i], want.bal[i][a], got.bal[i][a]);
		}
	}
	for p in 0..2 {
		req!(want.pair[p].r == got.pair[p].r, "reserves of pair {p}: expected {:?} got {:?}", want.pair[p].r, got.pair[p].r);
		req!(want.pair[p].exists == got.pair[p].exists && (!want.pair[p].exists || want.pair[p].enabled == got.pair[p].enabled), "status of pair {p}: expected {:?} got {:?}", want.pair[p], got.pair[p]);
	}
	req!(want.fee_to == got.fee_to, "fee receiver: expected {:?} got {:?}", want.fee_to, got.fee_to);
	Ok(())
}
fn exec(op: &Op) -> Result<(), String> {
	let s = |w: &usize| RuntimeOrigin::signed(acc(*w));
	let o = |t: &Option<usize>| t.map(acc);
	let root = |r: &bool| if *r { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(ALICE)) };
	let e = |r: frame_support::dispatch::DispatchResultWithPostInfo| r.map(|_| ()).map_err(|e| format!("{:?}", e.error));
	let d = |r: frame_support::dispatch::DispatchResult| r.map_err(|e| format!("{e:?}"));
	match op {
		Op::Add { who, x, y, dx, dy, mx, my, to, deadline } => e(Dex::add_liquidity(s(who), asset(*x), asset(*y), *dx, *dy, *mx, *my, o(to), *deadline)),
		Op::Remove { who, x, y, liq, mx, my, to, deadline } => e(Dex::remove_liquidity(s(who), asset(*x), asset(*y), *liq, *mx, *my, o(to), *deadline)),
		Op::Supply { who, path, amt, min, to, deadline } => e(Dex::swap_with_exact_supply(s(who), *amt, *min, path.iter().map(|a| asset(*a)).collect(), o(to), *deadline)),
		Op::Target { who, path, amt, max, to, deadline } => e(Dex::swap_with_exact_target(s(who), *amt, *max, path.iter().map(|a| asset(*a)).collect(), o(to), *deadline)),
		Op::Donate { pair, side, amt } => d(<AssetsExt as Mutate<AccountId>>::transfer(asset(if *side == 0 { PAIRS[*pair].0 } else { PAIRS[*pair].1 }), &acc(BOB), &acc(POOL + pair), *amt, Preservation::Expendable).map(|_| ())),
		Op::SendLp { pair, from, to, amt } => match lp_id(*pair) {
			Some(l) => d(<AssetsExt as Mutate<AccountId>>::transfer(l, &acc(*from), &acc(*to), *amt, Preservation::Expendable).map(|_| ())),
			None => Err("no lp".into()),
		},
		Op::FeeTo { root: r, to } => e(Dex::set_fee_to(root(r), to.map(acc))),
		Op::Status { root: r, x, y, enable } => e(if *enable { Dex::reenable_trading_pair(root(r), asset(*x), asset(*y)) } else { Dex::disable_trading_pair(root(r), asset(*x), asset(*y)) }),
	}
}
#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Swap,
	Liquidity,
	Admin,
}
struct DexSpec {
	focus: Focus,
	rich: bool,
}
fn u(x: u128) -> U256 {
	U256::from(x)
}
impl Spec for DexSpec {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		4
	}
	fn init(&self, i: usize) -> M {
		System::set_block_number(BLOCK);
		// ids 100, 1124 come from the allocator, id 2 is created directly
		let a = AssetsExt::create(&acc(ALICE), None).unwrap();
		let b = AssetsExt::create(&acc(ALICE), None).unwrap();
		assert_eq!((a, b), (asset(0), asset(1)));
		Assets::force_create(RuntimeOrigin::root(), asset(2), acc(ALICE), true, 1).unwrap();
		for w in [ALICE, BOB] {
			for x in 0..3 {
				AssetsExt::mint_into(asset(x), &acc(w), 1_000_000).unwrap();
			}
		}
		let mut m = actual();
		let mut run = |op: Op| {
			m.apply(&op).expect("setup op refused by the reference");
			exec(&op).expect("setup op");
		};
		let add = |x, y, dx, dy| Op::Add { who: ALICE, x, y, dx, dy, mx: 0, my: 0, to: None, deadline: None };
		match i {
			0 => {},
			1 => {
				run(add(0, 1, 4_000, 9_000));
				run(add(1, 2, 50_000, 20_000));
			},
			2 => {
				run(Op::FeeTo { root: true, to: None });
				run(add(0, 1, 100_000, 1_100));
				run(add(1, 2, 3_000, 3_000));
				run(Op::Donate { pair: 0, side: 1, amt: 77 });
			},
			_ => {
				run(add(0, 1, 10_000, 10_000));
				run(Op::FeeTo { root: true, to: None });
				run(add(1, 2, 10_000, 10_000));
				run(Op::Add { who: BOB, x: 0, y: 1, dx: 10_000, dy: 10_000, mx: 0, my: 0, to: None, deadline: None });
			},
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut v = vec![];
		let swap = |v: &mut Vec<Op>, full: bool| {
			let paths: Vec<Vec<usize>> = if full {
				vec![vec![0, 1], vec![1, 0], vec![1, 2], vec![0, 1, 2], vec![2, 1, 0], vec![0, 1, 0], vec![0], vec![0, 2], vec![0, 0], vec![0, 1, 2, 1]]
			} else {
				vec![vec![0, 1], vec![2, 1, 0]]
			};
			for path in paths {
				for amt in if full { vec![0, 1, 7, 1_000, 40_000] } else { vec![5_000] } {
					// min exactly at the quote, and one above it
					match m.quote_out(&path, amt) {
						Some(q) => {
							let q = *q.last().unwrap();
							v.push(Op::Supply { who: BOB, path: path.clone(), amt, min: q, to: None, deadline: Some(BLOCK) });
							if full {
								v.push(Op::Supply { who: BOB, path: path.clone(), amt, min: q + 1, to: None, deadline: None });
							}
						},
						None => v.push(Op::Supply { who: BOB, path: path.clone(), amt, min: 0, to: None, deadline: None }),
					}
				}
				if full {
					v.push(Op::Supply { who: ALICE, path: path.clone(), amt: 300, min: 0, to: Some(BOB), deadline: Some(BLOCK - 1) });
					v.push(Op::Supply { who: ALICE, path: path.clone(), amt: 300, min: 0, to: Some(BOB), deadline: Some(BLOCK + 1) });
					for amt in [0, 1, 333, 2_500] {
						match m.quote_in(&path, amt) {
							Some(q) => {
								v.push(Op::Target { who: BOB, path: path.clone(), amt, max: q[0], to: None, deadline: Some(BLOCK) });
								v.push(Op::Target { who: BOB, path: path.clone(), amt, max: q[0] - 1, to: None, deadline: None });
							},
							None => v.push(Op::Target { who: BOB, path: path.clone(), amt, max: u128::MAX, to: None, deadline: None }),
						}
					}
					v.push(Op::Target { who: ALICE, path: path.clone(), amt: 20, max: u128::MAX, to: Some(BOB), deadline: Some(BLOCK - 1) });
					v.push(Op::Target { who: ALICE, path: path.clone(), amt: 20, max: u128::MAX, to: Some(BOB), deadline: None });
				}
			}
		};
		let liq = |v: &mut Vec<Op>, full: bool| {
			for (x, y) in if full { vec![(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (1, 1)] } else { vec![(0, 1), (2, 1)] } {
				for (dx, dy) in if full { vec![(0, 5), (1, 1), (1_000, 1_000), (1_001, 1_001), (3_000, 700), (123, 45_678)] } else { vec![(7_000, 7_000)] } {
					if (x, y) != (0, 2) {
						v.push(Op::Add { who: BOB, x, y, dx, dy, mx: 0, my: 0, to: None, deadline: Some(BLOCK) });
					}
				}
				if full && (x, y) != (0, 2) {
					v.push(Op::Add { who: ALICE, x, y, dx: 2_000, dy: 5_000, mx: 0, my: 0, to: Some(BOB), deadline: Some(BLOCK - 1) });
					v.push(Op::Add { who: ALICE, x, y, dx: 2_000_000, dy: 5_000, mx: 0, my: 0, to: Some(BOB), deadline: None });
					// minima exactly met / missed by one
					if let Some((p, sw)) = pair_of(x, y) {
						let r = m.pair[p].r;
						let (rx, ry) = if sw { (r[1], r[0]) } else { (r[0], r[1]) };
						if rx > 0 && ry > 0 {
							let oy = 2_000 * ry / rx;
							let ox = 900 * rx / ry;
							for k in [0, 1] {
								for zero in [true, false] {
									v.push(Op::Add { who: ALICE, x, y, dx: 2_000, dy: oy + 50, mx: if zero { 0 } else { 2_000 }, my: oy + k, to: None, deadline: None });
									v.push(Op::Add { who: ALICE, x, y, dx: 2_000, dy: oy + 50, mx: 2_000 + k, my: if zero { 0 } else { oy }, to: None, deadline: None });
									v.push(Op::Add { who: ALICE, x, y, dx: ox + 60, dy: 900, mx: ox + k, my: if zero { 0 } else { 900 }, to: Some(BOB), deadline: None });
									v.push(Op::Add { who: ALICE, x, y, dx: ox + 60, dy: 900, mx: if zero { 0 } else { ox }, my: 900 + k, to: Some(BOB), deadline: None });
								}
							}
						}
					}
				}
				if let Some((p, sw)) = pair_of(x, y) {
					for who in [ALICE, BOB] {
						let l = m.bal[who][3 + p];
						for q in if full { vec![0, 1, l / 3, l, l + 1] } else { vec![l] } {
							v.push(Op::Remove { who, x, y, liq: q, mx: 0, my: 0, to: None, deadline: Some(BLOCK) });
						}
						if full && l > 1 {
							let s = m.supply(3 + p);
							let q = l / 2 + m.bal[POOL + p][3 + p];
							let (a, b) = PAIRS[p];
							let (oa, ob) = (q * m.bal[POOL + p][a] / s, q * m.bal[POOL + p][b] / s);
							let (ox, oy) = if sw { (ob, oa) } else { (oa, ob) };
							v.push(Op::Remove { who, x, y, liq: l / 2, mx: ox, my: oy, to: Some(BURN), deadline: None });
							v.push(Op::Remove { who, x, y, liq: l / 2, mx: ox + 1, my: 0, to: None, deadline: None });
							v.push(Op::Remove { who, x, y, liq: l / 2, mx: 0, my: oy + 1, to: None, deadline: None });
							v.push(Op::Remove { who, x, y, liq: l / 2, mx: 0, my: 0, to: None, deadline: Some(BLOCK - 1) });
						}
					}
				} else {
					v.push(Op::Remove { who: ALICE, x, y, liq: 1, mx: 0, my: 0, to: None, deadline: None });
				}
			}
			if full {
				for pair in [0, 1] {
					v.push(Op::Donate { pair, side: 0, amt: 999 });
					v.push(Op::Donate { pair, side: 1, amt: 13 });
					v.push(Op::SendLp { pair, from: ALICE, to: BOB, amt: 500 });
					v.push(Op::SendLp { pair, from: BOB, to: POOL + pair, amt: 40 });
				}
			}
		};
		match self.focus {
			Focus::Swap => {
				swap(&mut v, true);
				liq(&mut v, self.rich);
				v.push(Op::Donate { pair: 0, side: 0, amt: 999 });
				v.push(Op::FeeTo { root: true, to: None });
				v.push(Op::Status { root: true, x: 1, y: 0, enable: false });
			},
			Focus::Liquidity => {
				liq(&mut v, true);
				swap(&mut v, self.rich);
				v.push(Op::FeeTo { root: true, to: None });
				v.push(Op::FeeTo { root: true, to: Some(FEE) });
			},
			Focus::Admin => {
				swap(&mut v, self.rich);
				liq(&mut v, self.rich);
				for (x, y) in [(0, 1), (2, 1), (0, 2)] {
					for enable in [true, false] {
						v.push(Op::Status { root: true, x, y, enable });
						v.push(Op::Status { root: false, x: y, y: x, enable });
					}
				}
				for to in [None, Some(FEE), Some(BOB)] {
					v.push(Op::FeeTo { root: true, to });
					v.push(Op::FeeTo { root: false, to });
				}
			},
		}
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let pre = m.clone();
		let h = shim::ext::state_hash();
		let mut want = pre.clone();
		let ok = want.apply(op).is_some();
		if !ok {
			want = pre.clone();
		}
		let r = exec(op);
		let got = actual();
		let kind = format!("{op:?}").split([' ', '{']).next().unwrap().to_string();
		if r.is_err() {
			req!(shim::ext::state_hash() == h, "atomicity: refused {kind} ({}) changed the state", r.clone().unwrap_err());
		}
		// conservation of the traded assets
		for a in 0..3 {
			req!(got.supply(a) == pre.supply(a), "conservation: supply of asset {a} went from {} to {}", pre.supply(a), got.supply(a));
		}
		for p in 0..2 {
			if pre.pair[p].exists && !matches!(op, Op::SendLp { .. }) {
				let (s0, s1) = (pre.supply(3 + p), got.supply(3 + p));
				let (k0, k1) = (pre.pair[p].r[0] * pre.pair[p].r[1], got.pair[p].r[0] * got.pair[p].r[1]);
				if matches!(op, Op::Supply { .. } | Op::Target { .. }) {
					req!(k1 >= k0, "constant product: pair {p} fell from {k0} to {k1}");
					if pre.fee_to.is_none() {
						req!(s0 == s1, "protocol fee: shares of pair {p} minted while no fee receiver is set");
					}
				}
				// what one share is worth may never fall, up to rounding of the fee share (one part in isqrt k)
				if s0 > 0 && s1 > 0 && s1 != s0 && k0 > 0 {
					// (growth since the last collection may be charged late, what was there before may not)
					let base = if pre.fee_to.is_some() && pre.pair[p].lastk > 0 { k0.min(pre.pair[p].lastk) } else { k0 };
					let (v0, v1) = (u(isqrt(base)) * u(s1), u(isqrt(k1) + 1) * u(s0));
					req!(v1 >= v0, "share value: pair {p} sqrt(k)/supply fell from {}/{s0} to {}/{s1}", isqrt(k0), isqrt(k1));
				}
				req!(got.bal[BURN][3 + p] >= 1000, "locked liquidity: the locked 1000 shares of pair {p} are gone");
			}
			let (a, b) = PAIRS[p];
			req!(got.bal[POOL + p][a] >= got.pair[p].r[0] && got.bal[POOL + p][b] >= got.pair[p].r[1], "reserves: pair {p} records {:?} but holds less", got.pair[p].r);
		}
		match (&r, ok) {
			(Ok(()), false) => return Err(format!("admission: {kind} was accepted but must be refused")),
			(Err(e), true) => return Err(format!("admission: {kind} was refused with {e} but must succeed")),
			_ => {},
		}
		diff(&want, &got)?;
		*m = want;
		Ok(format!("{kind}: {}", match r { Ok(()) => "ok".into(), Err(e) => short(&e) }))
	}
}
fn short(e: &str) -> String {
	e.split("message: Some(\"").nth(1).and_then(|s| s.split('"').next()).unwrap_or(e).to_string()
}
fn run(c: &mut Ctx, focus: Focus) {
	c.assume("asset balances are below 2^64 so that the reference arithmetic is exact in 128 bits (the full range is covered by the quote property)");
	c.bfs("lean alphabet", &DexSpec { focus, rich: false }, depth(match focus {
		Focus::Admin => c.pick(4, 5),
		_ => c.pick(2, 3),
	}));
	c.bfs("rich alphabet", &DexSpec { focus, rich: true }, depth(c.pick(2, 3)));
}
/// Five assets, all pairs: every path up to five hops, either way.
fn paths(c: &mut Ctx) {
	let mut all: Vec<Vec<usize>> = vec![vec![]];
	let mut cases = vec![];
	for _ in 0..6 {
		all = all.iter().flat_map(|p| (0..5).filter(|a| p.last() != Some(a)).map(|a| [p.clone(), vec![a]].concat()).collect::<Vec<_>>()).collect();
		cases.extend(all.iter().cloned());
	}
	let top = c.pick(5, 6);
	cases.retain(|p| p.len() <= top);
	let dom: Vec<(Vec<usize>, bool, bool)> = cases.into_iter().flat_map(|p| [(true, true), (false, true), (true, false), (false, false)].map(|(supply, own)| (p.clone(), supply, own))).collect();
	let id = |i: usize| 1000 + 7 * ((i as u32 * 3) % 5);
	c.enumerate("every path over five assets", dom.into_iter(), |(path, supply, own)| {
		thread_local!(static BASE: std::cell::RefCell<Option<shim::ext::State>> = Default::default());
		if BASE.with(|b| b.borrow().is_none()) {
			System::set_block_number(BLOCK);
			for i in 0..5 {
				Assets::force_create(RuntimeOrigin::root(), id(i), acc(ALICE), true, 1).unwrap();
				AssetsExt::mint_into(id(i), &acc(ALICE), 10_000_000).unwrap();
			}
			Dex::set_fee_to(RuntimeOrigin::root(), None).unwrap();
			for i in 0..5 {
				for j in 0..i {
					Dex::add_liquidity(RuntimeOrigin::signed(acc(ALICE)), id(i), id(j), 100_000 + 1000 * i as u128, 100_000 + 1700 * j as u128, 0, 0, None, None).unwrap();
				}
			}
			let snap = shim::ext::snapshot();
			BASE.with(|b| *b.borrow_mut() = Some(snap));
		}
		BASE.with(|b| shim::ext::restore(b.borrow().as_ref().unwrap()));
		let p: Vec<AssetId> = path.iter().map(|a| id(*a)).collect();
		let (a, z) = (p.first().cloned().unwrap_or(0), p.last().cloned().unwrap_or(0));
		let to = if *own { None } else { Some(acc(BOB)) };
		let dest = if *own { ALICE } else { BOB };
		let before = (AssetsExt::balance(a, &acc(ALICE)), AssetsExt::balance(z, &acc(dest)));
		let h = shim::ext::state_hash();
		let quote = if *supply { Dex::get_amounts_out(900, &p) } else { Dex::get_amounts_in(900, &p) };
		let r = frame_support::storage::with_storage_layer(|| if *supply { Dex::swap_with_exact_supply(RuntimeOrigin::signed(acc(ALICE)), 900, 0, p.clone(), to, None) } else { Dex::swap_with_exact_target(RuntimeOrigin::signed(acc(ALICE)), 900, u128::MAX, p.clone(), to, None) });
		let ok = p.len() == 2 || p.len() == 3 && a != z;
		req!(r.is_ok() == ok, "admission: a path of {} assets is answered with {r:?}", p.len());
		if r.is_err() {
			req!(shim::ext::state_hash() == h, "atomicity: a refused swap changed the state");
			return Ok("refused".into());
		}
		let q = quote.map_err(|e| format!("quote: {e:?}"))?;
		req!(q.len() == p.len() && (if *supply { q[0] } else { q[q.len() - 1] }) == 900, "quote: {q:?}");
		let after = (AssetsExt::balance(a, &acc(ALICE)), AssetsExt::balance(z, &acc(dest)));
		req!(before.0 - after.0 == q[0] && after.1 - before.1 == q[q.len() - 1], "swap: paid {} and received {} at the quote {q:?}", before.0 - after.0, after.1 - before.1);
		for m in &p[1..p.len() - 1] {
			req!(AssetsExt::balance(*m, &acc(BOB)) == 0, "swap: an intermediate asset was paid out");
		}
		Ok(format!("{} hops", p.len() - 1))
	});
}
fn main() {
	explore::main(&[
		("D01", |c| {
			run(c, Focus::Swap);
			paths(c)
		}),
		("D02", |c| run(c, Focus::Liquidity)),
		("D03", |c| run(c, Focus::Admin)),
		("D04", quotes::run),
	]);
}
