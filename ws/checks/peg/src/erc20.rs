//! K01, K02: the ERC20 peg.
use crate::*;
use frame_support::traits::{
	fungibles::{Inspect, Mutate},
	Hooks,
};
use pallet_erc20_peg::types::*;
use sp_runtime::traits::AccountIdConversion;
use std::collections::BTreeMap;
const ROOT: AssetId = ROOT_ASSET_ID;
const USD: AssetId = 7;
/// The token contracts: ROOT, one mapped to USD, an unknown one with known metadata, an unknown one.
pub const TOKENS: [u64; 4] = [0x71, 0x72, 0x73, 0x74];
const PEG: u64 = 0xc1;
const ROOT_PEG: u64 = 0xc2;
const SRC: [u64; 3] = [PEG, ROOT_PEG, 0xc3];
const PEOPLE: usize = 3;
#[derive(Clone, Hash, Debug)]
enum Pay {
	Dep { token: usize, amount: u128, who: usize },
	Wd { token: usize, amount: u128, to: u64, from: usize, asset: AssetId },
}
#[derive(Clone, Hash, Debug)]
pub struct M {
	now: u64,
	/// deposits, withdrawals, delays of deposits, delays of withdrawals
	flags: [bool; 4],
	delay: BTreeMap<AssetId, (u128, u64)>,
	bal: BTreeMap<(AssetId, usize), u128>,
	pot: u128,
	map: BTreeMap<usize, AssetId>,
	/// in the order in which they are due
	due: Vec<(u64, u64)>,
	pay: BTreeMap<u64, Pay>,
	next: u64,
	assets: u32,
	sent: Vec<(bool, usize, u128, u64)>,
}
#[derive(Clone, Debug)]
pub enum Op {
	Deposit { src: usize, token: usize, amount: U256, who: usize },
	Withdraw { who: usize, asset: AssetId, amount: u128, to: u64 },
	Evm { who: usize, asset: AssetId, amount: u128, to: u64 },
	Delay { root: bool, asset: AssetId, min: u128, delay: u64 },
	Flag { root: bool, which: usize, on: bool },
	/// The rest of this block - with weight for `n` payments - and the beginning of the next one.
	Block { n: u64 },
	Claim { root: bool, block: u64, id: u64 },
	Map { root: bool, token: usize, asset: AssetId },
}
impl M {
	fn b(&self, a: AssetId, w: usize) -> u128 {
		self.bal.get(&(a, w)).cloned().unwrap_or(0)
	}
	fn token_of(&self, a: AssetId) -> Option<usize> {
		self.map.iter().find(|x| *x.1 == a).map(|x| *x.0)
	}
	/// Adds to the schedule; at least to the next block.
	fn put_off(&mut self, delay: u64, p: Pay) {
		let at = self.now.saturating_add(delay.max(1));
		// after the others due in the same or an earlier block
		let i = self.due.iter().position(|x| x.0 > at).unwrap_or(self.due.len());
		self.due.insert(i, (at, self.next));
		self.pay.insert(self.next, p);
		self.next += 1;
	}
	fn credit(&mut self, token: usize, amount: u128, who: usize) -> Option<()> {
		let asset = match self.map.get(&token) {
			Some(a) => *a,
			None => {
				let a = asset_id(self.assets);
				self.assets += 1;
				self.map.insert(token, a);
				a
			},
		};
		if asset == ROOT {
			self.pot = self.pot.checked_sub(amount)?;
		} else {
			let supply: u128 = (0..PEOPLE).map(|i| self.b(asset, i)).sum();
			supply.checked_add(amount)?;
		}
		if amount > 0 {
			*self.bal.entry((asset, who)).or_default() += amount;
		}
		Some(())
	}
	fn process(&mut self, id: u64) {
		match self.pay.remove(&id) {
			Some(Pay::Dep { token, amount, who }) => {
				let _ = self.credit(token, amount, who);
			},
			Some(Pay::Wd { token, amount, to, asset, .. }) => self.sent.push((asset == ROOT, token, amount, to)),
			None => {},
		}
	}
	fn delayed(&self, which: usize, asset: AssetId, amount: u128) -> Option<u64> {
		let (min, d) = self.delay.get(&asset)?;
		(self.flags[which] && amount >= *min).then_some(*d)
	}
	fn apply(&mut self, op: &Op) -> Option<()> {
		match op {
			Op::Deposit { src, token, amount, who } => {
				if *src == 2 || !self.flags[0] || *amount >= U256::from(u128::MAX) {
					return None;
				}
				let amount = amount.as_u128();
				if let Some(a) = self.map.get(token).cloned() {
					if (a == ROOT) != (*src == 1) {
						return None;
					}
					if let Some(d) = self.delayed(2, a, amount) {
						self.put_off(d, Pay::Dep { token: *token, amount, who: *who });
						return Some(());
					}
				}
				self.credit(*token, amount, *who)?;
			},
			Op::Withdraw { who, asset, amount, to } | Op::Evm { who, asset, amount, to } => {
				if !self.flags[1] {
					return None;
				}
				let token = self.token_of(*asset)?;
				let d = self.delayed(3, *asset, *amount);
				if d.is_some() && matches!(op, Op::Evm { .. }) {
					return None;
				}
				let left = self.b(*asset, *who).checked_sub(*amount)?;
				self.bal.insert((*asset, *who), left);
				if *asset == ROOT {
					self.pot += amount;
				}
				match d {
					Some(d) => self.put_off(d, Pay::Wd { token, amount: *amount, to: *to, from: *who, asset: *asset }),
					None if *to == REFUSED => return None,
					None => self.sent.push((*asset == ROOT, token, *amount, *to)),
				}
			},
			Op::Delay { root, asset, min, delay } => {
				if !root {
					return None;
				}
				self.delay.insert(*asset, (*min, *delay));
			},
			Op::Flag { root, which, on } => {
				if !root {
					return None;
				}
				self.flags[*which] = *on;
			},
			Op::Block { n } => {
				let k = self.due.iter().take_while(|x| x.0 <= self.now).count().min(*n as usize);
				let ids: Vec<u64> = self.due.drain(..k).map(|x| x.1).collect();
				for id in ids {
					self.process(id);
				}
				self.now += 1;
			},
			Op::Claim { root, block, id } => {
				if !root {
					return None;
				}
				let i = self.due.iter().position(|x| x == &(*block, *id))?;
				self.due.remove(i);
				self.process(*id);
			},
			Op::Map { root, token, asset } => {
				if !root {
					return None;
				}
				self.map.insert(*token, *asset);
			},
		}
		self.bal.retain(|_, v| *v > 0);
		Some(())
	}
}
fn asset_id(n: u32) -> AssetId {
	(n << 10) | 100
}
fn exec(op: &Op) -> Result<(), String> {
	let s = |w: &usize| RuntimeOrigin::signed(acc(*w));
	let r = |root: &bool| if *root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(acc(0)) };
	if let Op::Deposit { src, token, amount, who } = op {
		// as in the bridge, nothing undoes what a refused delivery did
		let mut d = w_addr(h(TOKENS[*token]));
		d.extend(w_uint(*amount));
		d.extend(w_addr(user(*who)));
		return if deliver(0, h(SRC[*src]), &d) { Ok(()) } else { Err("deposit".into()) };
	}
	call(|| match op {
		Op::Deposit { .. } => unreachable!(),
		Op::Withdraw { who, asset, amount, to } => Erc20Peg::withdraw(s(who), *asset, *amount, h(*to)),
		Op::Evm { who, asset, amount, to } => Erc20Peg::do_withdrawal(acc(*who), *asset, *amount, h(*to), WithdrawCallOrigin::Evm).map(|_| ()),
		Op::Delay { root, asset, min, delay } => Erc20Peg::set_payment_delay(r(root), *asset, *min, *delay),
		Op::Flag { root, which, on } => match which {
			0 => Erc20Peg::activate_deposits(r(root), *on),
			1 => Erc20Peg::activate_withdrawals(r(root), *on),
			2 => Erc20Peg::activate_deposits_delay(r(root), *on),
			_ => Erc20Peg::activate_withdrawals_delay(r(root), *on),
		},
		Op::Block { n } => {
			let db = frame_support::weights::constants::RocksDbWeight::get();
			let each = db.reads(8) + db.writes(10);
			let w = db.reads(1) + Weight::from_parts(each.ref_time() * n + 1, u64::MAX / 2);
			let now = System::block_number();
			<Erc20Peg as Hooks<u64>>::on_idle(now, w);
			System::set_block_number(now + 1);
			<Erc20Peg as Hooks<u64>>::on_initialize(now + 1);
			Ok(())
		},
		Op::Claim { root, block, id } => Erc20Peg::claim_delayed_payment(r(root), *block, *id),
		Op::Map { root, token, asset } => Erc20Peg::set_erc20_asset_map(r(root), *asset, h(TOKENS[*token])),
	})
}
fn peg_account() -> AccountId {
	PegPalletId::get().into_account_truncating()
}
fn check(m: &mut M) -> Check {
	use pallet_erc20_peg as p;
	let mut assets: Vec<AssetId> = m.map.values().cloned().collect();
	assets.extend([ROOT, USD]);
	for a in assets {
		let mut sum = 0;
		for i in 0..PEOPLE {
			let b = AssetsExt::balance(a, &acc(i));
			req!(b == m.b(a, i), "balance: user {i} has {b} of asset {a}, expected {}", m.b(a, i));
			sum += b;
		}
		if a != ROOT {
			let t = AssetsExt::total_issuance(a);
			req!(t == sum, "supply: {t} of asset {a} exist, the users have {sum}");
		}
	}
	let pot = AssetsExt::balance(ROOT, &peg_account());
	req!(pot == m.pot, "pot: the peg holds {pot} ROOT, expected {}", m.pot);
	for t in 0..TOKENS.len() {
		let a = p::Erc20ToAssetId::<Test>::get(h(TOKENS[t]));
		req!(a == m.map.get(&t).cloned(), "mapping: token {t} stands for asset {a:?}, expected {:?}", m.map.get(&t));
		if let Some(a) = a {
			req!(p::AssetIdToErc20::<Test>::get(a) == Some(h(TOKENS[t])), "mapping: asset {a} stands for {:?}", p::AssetIdToErc20::<Test>::get(a));
		}
	}
	let mut pend: Vec<(u64, PendingPayment<AccountId>)> = p::DelayedPayments::<Test>::iter().collect();
	pend.sort_by_key(|x| x.0);
	let want: Vec<(u64, PendingPayment<AccountId>)> = m
		.pay
		.iter()
		.map(|(id, p)| {
			(*id, match p {
				Pay::Dep { token, amount, who } => PendingPayment::Deposit(Erc20DepositEvent { token_address: h(TOKENS[*token]), amount: (*amount).into(), beneficiary: user(*who) }),
				Pay::Wd { token, amount, to, from, .. } => PendingPayment::Withdrawal((acc(*from), WithdrawMessage { token_address: h(TOKENS[*token]), amount: (*amount).into(), beneficiary: h(*to) })),
			})
		})
		.collect();
	req!(pend == want, "delayed: {pend:?} are pending, expected {want:?}");
	let sent: Vec<Msg> = drain(SENT);
	let want: Vec<Msg> = m
		.sent
		.drain(..)
		.map(|(root, token, amount, to)| {
			let mut d = w_addr(h(TOKENS[token]));
			d.extend(w(amount));
			d.extend(w_addr(h(to)));
			(peg_account().into(), h(if root { ROOT_PEG } else { PEG }), d)
		})
		.collect();
	req!(sent == want, "release: messages {sent:?} were sent, expected {want:?}");
	Ok(())
}
struct S {
	deposits: bool,
	rich: bool,
}
fn genesis() -> M {
	System::set_block_number(1);
	let mut m = M {
		now: 1,
		flags: [false, false, true, true],
		delay: Default::default(),
		bal: Default::default(),
		pot: 20,
		map: Default::default(),
		due: vec![],
		pay: Default::default(),
		next: 0,
		assets: 0,
		sent: vec![],
	};
	Assets::force_create(RuntimeOrigin::root(), USD, acc(9), true, 1).unwrap();
	for (w, q) in [(0, 9), (1, 5)] {
		for a in [ROOT, USD] {
			AssetsExt::mint_into(a, &acc(w), q).unwrap();
			m.bal.insert((a, w), q);
		}
	}
	AssetsExt::mint_into(ROOT, &peg_account(), 20).unwrap();
	Erc20Peg::set_erc20_peg_address(RuntimeOrigin::root(), h(PEG)).unwrap();
	Erc20Peg::set_root_peg_address(RuntimeOrigin::root(), h(ROOT_PEG)).unwrap();
	Erc20Peg::set_erc20_meta(RuntimeOrigin::root(), vec![(h(TOKENS[2]), BoundedVec::truncate_from(b"TOK".to_vec()), 6)]).unwrap();
	m
}
fn both(m: &mut M, op: Op) {
	assert!(m.apply(&op).is_some() && exec(&op).is_ok(), "setup: {op:?}");
	check(m).unwrap();
}
fn dep(src: usize, token: usize, amount: u128, who: usize) -> Op {
	Op::Deposit { src, token, amount: amount.into(), who }
}
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		5
	}
	fn init(&self, i: usize) -> M {
		let mut m = genesis();
		let x = &mut m;
		if i > 0 {
			both(x, Op::Map { root: true, token: 0, asset: ROOT });
			both(x, Op::Map { root: true, token: 1, asset: USD });
			both(x, Op::Flag { root: true, which: 0, on: true });
			both(x, Op::Flag { root: true, which: 1, on: true });
		}
		if i > 1 {
			both(x, Op::Delay { root: true, asset: USD, min: 3, delay: 2 });
			both(x, Op::Delay { root: true, asset: ROOT, min: 4, delay: 1 });
			both(x, dep(0, 1, 4, 2));
			both(x, Op::Withdraw { who: 0, asset: USD, amount: 3, to: 0x51 });
		}
		if i == 4 {
			// four blocks are ready, with one, two, one and no payment
			both(x, Op::Block { n: 0 });
			both(x, dep(0, 1, 7, 1));
			both(x, Op::Block { n: 0 });
			both(x, dep(0, 1, 8, 1));
			both(x, Op::Block { n: 0 });
			both(x, dep(0, 1, 9, 1));
			both(x, Op::Block { n: 0 });
			both(x, Op::Block { n: 0 });
			both(x, Op::Block { n: 0 });
			both(x, Op::Claim { root: true, block: 6, id: 4 });
			return m;
		}
		if i > 2 {
			both(x, Op::Withdraw { who: 0, asset: ROOT, amount: 5, to: 0x52 });
			both(x, dep(1, 0, 4, 2));
			both(x, dep(0, 2, 7, 1));
			both(x, Op::Block { n: 9 });
			both(x, dep(0, 1, 6, 1));
			both(x, Op::Block { n: 1 });
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut v = vec![];
		let r = self.rich;
		for n in if r { vec![0, 1, 2, 3, 9] } else { vec![0, 1, 2, 9] } {
			v.push(Op::Block { n });
		}
		if self.deposits {
			for (src, token) in [(0, 1), (1, 0), (0, 2), (0, 3), (1, 1), (0, 0), (2, 1), (2, 2)] {
				for amount in if src == 2 { vec![3] } else if r { vec![0, 2, 3, 25] } else { vec![2, 4] } {
					v.push(dep(src, token, amount, 2));
				}
			}
			for a in [U256::from(u128::MAX), U256::from(u128::MAX) + 3, U256::from(u128::MAX - 3)] {
				v.push(Op::Deposit { src: 0, token: 1, amount: a, who: 2 });
			}
		} else {
			for asset in m.map.values().cloned().chain([if m.map.is_empty() { USD } else { 55 }]) {
				for (who, amount) in if r { vec![(0, 2), (0, 3), (0, 4), (1, 5), (1, 0), (1, 9)] } else { vec![(0, 2), (0, 4), (1, 6)] } {
					v.push(Op::Withdraw { who, asset, amount, to: 0x50 });
				}
				v.push(Op::Evm { who: 0, asset, amount: 3, to: 0x53 });
				v.push(Op::Evm { who: 0, asset, amount: 1, to: 0x53 });
				if m.delayed(3, asset, 1).is_none() {
					v.push(Op::Withdraw { who: 1, asset, amount: 1, to: REFUSED });
				}
			}
			v.push(dep(0, 1, 3, 0));
			v.push(dep(0, 2, 5, 0));
		}
		for which in 0..4 {
			v.push(Op::Flag { root: true, which, on: !m.flags[which] });
			if r {
				v.push(Op::Flag { root: false, which, on: !m.flags[which] });
			}
		}
		for (asset, min, delay) in [(USD, 0, 0), (USD, 2, 3), (ROOT, 2, 1), (ROOT, 3, u64::MAX), (asset_id(0), 4, 1)] {
			v.push(Op::Delay { root: true, asset, min, delay });
		}
		v.push(Op::Delay { root: false, asset: USD, min: 9, delay: 0 });
		for (b, id) in &m.due {
			v.push(Op::Claim { root: true, block: *b, id: *id });
			v.push(Op::Claim { root: false, block: *b, id: *id });
		}
		v.push(Op::Claim { root: true, block: m.now, id: 0 });
		for (token, asset) in [(0, ROOT), (1, USD)] {
			// only fresh pairs; re-mapping is up to governance
			if !m.map.contains_key(&token) && m.token_of(asset).is_none() {
				v.push(Op::Map { root: true, token, asset });
			}
		}
		v.push(Op::Map { root: false, token: 0, asset: USD });
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let before = (m.clone(), shim::ext::state_hash());
		let want = m.apply(op).is_some();
		let got = exec(op);
		let k = kind(op);
		req!(got.is_ok() == want, "{k}: was {} ({got:?}), should be {}", if got.is_ok() { "done" } else { "refused" }, if want { "done" } else { "refused" });
		if !want {
			*m = before.0;
			req!(shim::ext::state_hash() == before.1, "{k}: was refused but had an effect");
			return Ok(format!("{k} refused"));
		}
		check(m)?;
		Ok(k)
	}
}
pub fn deposits(c: &mut Ctx) {
	c.assume("governance maps each token to one asset, once; fewer blocks with delayed payments are waiting than the configured limit");
	let (rich, d) = (c.thorough(), c.pick(4, 5));
	histories(c);
	c.bfs("deposits", &S { deposits: true, rich }, depth(d));
	if c.thorough() {
		c.bfs("deposits-deep", &S { deposits: true, rich: false }, depth(6));
	}
}
pub fn withdrawals(c: &mut Ctx) {
	c.assume("governance maps each token to one asset, once; the bridge does not refuse the message of a withdrawal that was delayed");
	let (rich, d) = (c.thorough(), c.pick(4, 5));
	histories(c);
	c.bfs("withdrawals", &S { deposits: false, rich }, depth(d));
	if c.thorough() {
		c.bfs("withdrawals-deep", &S { deposits: false, rich: false }, depth(6));
	}
}
/// `blocks` blocks with `each` delayed deposits or withdrawals of different amounts, idle weight for `n` payments
/// only from block `from` on, every `claim`th claimed by root before.
fn many(x: &(u64, u64, u64, u64, u64)) -> Step {
	let (blocks, each, n, from, claim) = *x;
	let mut m = genesis();
	let m = &mut m;
	both(m, Op::Map { root: true, token: 1, asset: USD });
	both(m, Op::Flag { root: true, which: 0, on: true });
	both(m, Op::Flag { root: true, which: 1, on: true });
	both(m, Op::Delay { root: true, asset: USD, min: 0, delay: 2 });
	let mut go = |m: &mut M, op: Op| -> Check {
		let want = m.apply(&op).is_some();
		let got = exec(&op);
		req!(got.is_ok() == want, "{op:?}: was {} ({got:?}), should be {}", if got.is_ok() { "done" } else { "refused" }, if want { "done" } else { "refused" });
		Ok(())
	};
	let mut b = 0;
	while b < blocks || !m.due.is_empty() {
		if b < blocks {
			for k in 0..each {
				go(m, if (b + k) % 3 == 2 { Op::Withdraw { who: 0, asset: USD, amount: 0, to: 0x50 } } else { dep(0, 1, (b * each + k) as u128, 2) })?;
			}
		}
		if claim > 0 {
			for (block, id) in m.due.clone() {
				if id % claim == 0 {
					go(m, Op::Claim { root: true, block, id })?;
				}
			}
		}
		let some = n.max(if b > 2 * blocks + 10 { 50 } else { 0 });
		go(m, Op::Block { n: if b < from { 0 } else { some } })?;
		if b % 7 == 0 {
			check(m)?;
		}
		b += 1;
	}
	check(m)?;
	for _ in 0..3 {
		go(m, Op::Block { n: 9 })?;
	}
	check(m)?;
	Ok(format!("{}", b.min(1)))
}
fn histories(c: &mut Ctx) {
	let top: &[u64] = if c.thorough() { &[1, 2, 3, 9, 40, 256, 300, 450] } else { &[1, 3, 40, 300, 450] };
	let mut v = vec![];
	for blocks in top {
		for each in [1, 2, 10] {
			for n in [1, 3, 200, 255, 1000] {
				for from in [0, 5, 1000] {
					for claim in [0, 1, 2] {
						// at most 255 in one block, however much weight there is
						// and at most 400 blocks waiting
						if blocks * each <= 600 && (*blocks < 400 || from == 0 && claim == 0) && (n < 256 || blocks * each < 256) {
							v.push((*blocks, each, n, from.min(blocks + 2), claim));
						}
					}
				}
			}
		}
	}
	v.sort();
	v.dedup();
	c.enumerate("long histories", v.into_iter(), many);
}
/// For the enumeration of messages: ROOT and USD are mapped, deposits are active, nothing is delayed.
pub fn setup() {
	let mut m = genesis();
	both(&mut m, Op::Map { root: true, token: 0, asset: ROOT });
	both(&mut m, Op::Map { root: true, token: 1, asset: USD });
	both(&mut m, Op::Flag { root: true, which: 0, on: true });
	for i in 0..2 {
		<AssetsExt as Mutate<AccountId>>::burn_from(USD, &acc(i), m.b(USD, i), frame_support::traits::tokens::Precision::Exact, frame_support::traits::tokens::Fortitude::Force).unwrap();
		let id = AssetsExt::balance(ROOT, &acc(i));
		<AssetsExt as Mutate<AccountId>>::burn_from(ROOT, &acc(i), id, frame_support::traits::tokens::Precision::Exact, frame_support::traits::tokens::Fortitude::Force).unwrap();
	}
	AssetsExt::mint_into(USD, &acc(2000), 100).unwrap();
}
