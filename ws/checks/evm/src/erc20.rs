//! V01: native assets seen through ERC20.
use explore::*;
use pallet_token_approvals as ta;
use rt::{sim::*, *};
use sp_core::{H160, U256};
use std::collections::BTreeMap;
const PEOPLE: usize = 3;
#[derive(Clone, Hash, Debug, Default)]
pub struct M {
	bal: BTreeMap<(AssetId, usize), u128>,
	allow: BTreeMap<(AssetId, usize, usize), u128>,
	supply: BTreeMap<AssetId, u128>,
}
#[derive(Clone, Debug)]
pub enum Op {
	Transfer { who: usize, to: usize, asset: AssetId, amount: U256 },
	Approve { who: usize, to: usize, asset: AssetId, amount: U256 },
	From { who: usize, from: usize, to: usize, asset: AssetId, amount: U256 },
	/// the same assets moved without the EVM
	Native { who: usize, to: usize, asset: AssetId, amount: u128 },
	/// the pallet's own calls, sent as a transaction
	Signed { who: usize, owner: usize, asset: AssetId, amount: u128, update: bool, root: bool },
}
fn clip(x: U256) -> u128 {
	if x > U256::from(u128::MAX) {
		u128::MAX
	} else {
		x.as_u128()
	}
}
enum Want {
	Yes,
	No,
	/// either, with the same effect on balances (none)
	Any,
}
impl M {
	fn b(&self, a: AssetId, w: usize) -> u128 {
		self.bal.get(&(a, w)).cloned().unwrap_or(0)
	}
	fn mv(&mut self, asset: AssetId, from: usize, to: usize, n: u128) -> Want {
		let f = self.b(asset, from);
		if n == 0 {
			return Want::Any;
		}
		if from == to {
			// nothing to do, unless it is more than there is (or than the pallets can add up)
			return if f >= n && n < 1 << 126 { Want::Yes } else { Want::Any };
		}
		if f < n {
			return Want::No;
		}
		*self.bal.entry((asset, from)).or_default() -= n;
		*self.bal.entry((asset, to)).or_default() += n;
		Want::Yes
	}
	fn apply(&mut self, op: &Op) -> Want {
		let r = match op {
			Op::Transfer { who, to, asset, amount } => self.mv(*asset, *who, *to, clip(*amount)),
			Op::Native { who, to, asset, amount } => self.mv(*asset, *who, *to, *amount),
			Op::Approve { who, to, asset, amount } => {
				if who == to {
					return Want::No;
				}
				self.allow.insert((*asset, *who, *to), clip(*amount));
				Want::Yes
			},
			Op::From { who, from, to, asset, amount } => {
				let n = clip(*amount);
				let k = (*asset, *from, *who);
				let have = self.allow.get(&k).cloned().unwrap_or(0);
				if have < n {
					return Want::No;
				}
				self.allow.insert(k, have - n);
				self.mv(*asset, *from, *to, n)
			},
			Op::Signed { .. } => Want::No,
		};
		self.bal.retain(|_, v| *v > 0);
		self.allow.retain(|_, v| *v > 0);
		r
	}
}
fn exec(op: &Op) -> (Result<Vec<u8>, String>, Vec<LogRec>) {
	let e = |o: Out| {
		assert_eq!(o.static_transfers, 0);
		(if o.ok() { Ok(o.out) } else { Err(format!("{:?}", o.reason)) }, o.logs)
	};
	match op {
		Op::Transfer { who, to, asset, amount } => {
			e(tx(user(*who), erc20(*asset), "transfer(address,uint256)", &[V::A(user(*to)), n(*amount)]))
		},
		Op::Approve { who, to, asset, amount } => {
			e(tx(user(*who), erc20(*asset), "approve(address,uint256)", &[V::A(user(*to)), n(*amount)]))
		},
		Op::From { who, from, to, asset, amount } => e(tx(
			user(*who),
			erc20(*asset),
			"transferFrom(address,address,uint256)",
			&[V::A(user(*from)), V::A(user(*to)), n(*amount)],
		)),
		Op::Native { who, to, asset, amount } => {
			let c = pallet_assets_ext::Call::transfer { asset_id: *asset, destination: acc(*to), amount: *amount, keep_alive: false };
			(dispatch(signed(user(*who)), c).map(|_| enc(&[V::B(true)])), vec![])
		},
		Op::Signed { who, owner, asset, amount, update, root: r } => {
			let o = if *r { root() } else { signed(user(*who)) };
			let (caller, spender, asset_id, amount) = (acc(*owner), acc(*who), *asset, *amount);
			let c = if *update {
				ta::Call::erc20_update_approval { caller, spender, asset_id, amount }
			} else {
				ta::Call::erc20_approval { caller, spender, asset_id, amount }
			};
			(dispatch(o, c).map(|_| vec![]), vec![])
		},
	}
}
fn expected(op: &Op) -> Vec<Log> {
	let t = "Transfer(address,address,uint256)";
	match op {
		Op::Transfer { who, to, asset, amount } => {
			vec![log(erc20(*asset), t, &[V::A(user(*who)), V::A(user(*to))], &[n(clip(*amount))])]
		},
		Op::From { from, to, asset, amount, .. } => {
			vec![log(erc20(*asset), t, &[V::A(user(*from)), V::A(user(*to))], &[n(clip(*amount))])]
		},
		Op::Approve { who, to, asset, amount } => vec![log(
			erc20(*asset),
			"Approval(address,address,uint256)",
			&[V::A(user(*who)), V::A(user(*to))],
			&[n(clip(*amount))],
		)],
		_ => vec![],
	}
}
fn check(m: &M, assets: &[AssetId]) -> Check {
	for &a in assets {
		let v = |sig: &str, x: &[V]| view(erc20(a), sig, x);
		for i in 0..PEOPLE {
			req!(bal(a, user(i)) == m.b(a, i), "balance: asset {a} of {i} is {} - not {}", bal(a, user(i)), m.b(a, i));
			let o = v("balanceOf(address)", &[V::A(user(i))]);
			req!(o == Ok(enc(&[n(m.b(a, i))])), "view: balanceOf({i}) of asset {a} is {o:?}, it holds {}", m.b(a, i));
			for j in 0..PEOPLE {
				let w = m.allow.get(&(a, i, j)).cloned().unwrap_or(0);
				let o = v("allowance(address,address)", &[V::A(user(i)), V::A(user(j))]);
				req!(o == Ok(enc(&[n(w)])), "allowance: of {j} from {i} in asset {a} is {o:?} - not {w}");
			}
		}
		let t = m.supply.get(&a).cloned().unwrap_or(0);
		req!(supply(a) == t, "supply: of {a} is {} - not {t}", supply(a));
		req!(v("totalSupply()", &[]) == Ok(enc(&[n(t)])), "view: totalSupply of {a} is {:?}, {t} exist", v("totalSupply()", &[]));
		let (name, symbol, dec) = meta(a);
		req!(v("name()", &[]) == Ok(enc(&[V::S(name.clone())])), "view: name of {a} is {:?}", v("name()", &[]));
		req!(v("symbol()", &[]) == Ok(enc(&[V::S(symbol.clone())])), "view: symbol of {a} is {:?}", v("symbol()", &[]));
		req!(v("decimals()", &[]) == Ok(enc(&[n(dec)])), "view: decimals of {a} is {:?}", v("decimals()", &[]));
	}
	Ok(())
}
fn meta(a: AssetId) -> (Vec<u8>, Vec<u8>, u8) {
	match a {
		ROOT => (b"ROOT".to_vec(), b"ROOT".to_vec(), 6),
		XRP => (b"XRP".to_vec(), b"XRP".to_vec(), 6),
		_ => (b"A token of more than thirty-two bytes".to_vec(), b"TOK".to_vec(), 9),
	}
}
pub struct S {
	pub rich: bool,
	pub assets: Vec<AssetId>,
}
fn tok() -> AssetId {
	100 + (0 << 10) + rt_parachain()
}
fn rt_parachain() -> u32 {
	0
}
fn both(m: &mut M, op: Op) {
	let (r, _) = exec(&op);
	match m.apply(&op) {
		Want::Yes => assert!(r.is_ok(), "setting up: {op:?} {r:?}"),
		_ => panic!("setting up: {op:?}"),
	}
}
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		3
	}
	fn init(&self, i: usize) -> M {
		genesis(0, 0);
		let mut m = M::default();
		// whoever creates an asset pays the fee for it
		fund(ROOT, user(50), 1_000_000_000_000);
		let c = pallet_assets_ext::Call::create_asset {
			name: meta(9).0,
			symbol: meta(9).1,
			decimals: 9,
			min_balance: Some(1),
			owner: Some(acc(50)),
		};
		dispatch(signed(user(50)), c).unwrap();
		let mut assets = self.assets.clone();
		let max = if i == 2 { u128::MAX / 2 - 2_000_000_000_000 } else { 3 };
		for a in assets.drain(..) {
			let s0 = supply(a);
			for w in 0..PEOPLE - 1 {
				let x = if w == 0 { max } else { 2 };
				fund(a, user(w), x);
				m.bal.insert((a, w), x);
			}
			m.supply.insert(a, s0 + max + 2);
		}
		if i >= 1 {
			for &a in &self.assets {
				both(&mut m, Op::Approve { who: 0, to: 1, asset: a, amount: U256::from(2) });
				both(&mut m, Op::Approve { who: 0, to: 2, asset: a, amount: U256::MAX });
				both(&mut m, Op::From { who: 1, from: 0, to: 2, asset: a, amount: U256::from(1) });
			}
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut v = vec![];
		let big = U256::from(u128::MAX) + 1;
		for &asset in &self.assets {
			for who in 0..PEOPLE {
				for to in 0..PEOPLE {
					let b = U256::from(m.b(asset, who));
					let mut am = vec![U256::one(), b, b + 1];
					if self.rich {
						am.extend([U256::zero(), U256::from(2), big + 1, U256::MAX]);
					}
					am.sort();
					am.dedup();
					for amount in am {
						v.push(Op::Transfer { who, to, asset, amount });
					}
					let mut am = vec![U256::zero(), U256::one(), big + 1];
					if self.rich {
						am.extend([U256::from(2), U256::from(u128::MAX)]);
					}
					for amount in am {
						v.push(Op::Approve { who, to, asset, amount });
					}
					for from in 0..PEOPLE {
						let al = U256::from(m.allow.get(&(asset, from, who)).cloned().unwrap_or(0));
						let mut am = vec![U256::one(), al];
						if self.rich {
							am.extend([U256::zero(), U256::from(2), al.saturating_add(U256::one()), b, big]);
						}
						am.sort();
						am.dedup();
						for amount in am {
							v.push(Op::From { who, from, to, asset, amount });
						}
					}
				}
			}
			v.push(Op::Native { who: 0, to: 2, asset, amount: 1 });
			v.push(Op::Native { who: 2, to: 1, asset, amount: m.b(asset, 2).max(1) });
			for (update, r) in [(false, false), (true, false), (false, true), (true, true)] {
				v.push(Op::Signed { who: 2, owner: 0, asset, amount: 1, update, root: r });
			}
		}
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let h0 = shim::ext::state_hash();
		let before = m.clone();
		let (r, logs) = exec(op);
		let want = m.apply(op);
		match (&want, &r) {
			(Want::Yes, Err(e)) => return Err(format!("refused: {op:?} - {e}")),
			(Want::No, Ok(_)) => return Err(format!("accepted: {op:?}")),
			_ => {},
		}
		if let Ok(out) = &r {
			req!(*out == enc(&[V::B(true)]), "output: {op:?} answered {out:?}");
			let e = expected(op);
			let got: Vec<Log> = logs.iter().map(|l| l.log.clone()).collect();
			req!(got == e, "logs: {op:?} wrote {got:?} - not {e:?}");
			req!(logs.iter().all(|l| !l.in_static), "logs: written in a static call");
		} else {
			*m = before;
			req!(shim::ext::state_hash() == h0, "refused-but-changed: {op:?}");
			req!(logs.is_empty(), "refused-but-logged: {op:?} {logs:?}");
		}
		check(m, &self.assets)?;
		Ok(format!("{} {}", kind(op), if r.is_ok() { "done" } else { "refused" }))
	}
	fn invariant(&self, m: &M) -> Check {
		check(m, &self.assets)
	}
}
pub fn run(ctx: &mut Ctx) {
	ctx.assume("gas is not exhausted; the token's minimum balance is one; its supply is below 2^127");
	ctx.bfs("native", &S { rich: ctx.thorough(), assets: vec![ROOT] }, depth(ctx.pick(2, 3)));
	ctx.bfs("asset", &S { rich: ctx.thorough(), assets: vec![tok()] }, depth(ctx.pick(2, 3)));
	ctx.bfs("two", &S { rich: false, assets: vec![XRP, tok()] }, depth(ctx.pick(2, 3)));
}
