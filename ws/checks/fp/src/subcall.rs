//! F03: what a futurepass does when told to by `proxyCall`: exactly what an account of its own would.
use crate::people::*;
use explore::*;
use fp_evm::PrecompileHandle;
use rt::{impls::ProxyType, sim::*, *};
use sp_core::{H160, H256, U256};
use std::cell::RefCell;
thread_local! { static SEEN: RefCell<Vec<(H160, H160, U256, Vec<u8>)>> = Default::default(); }
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum To {
	Nobody,
	Contract,
	Refuser,
	Xrp,
	Token,
	Itself,
	Other,
	Owned,
	Missing,
	Registrar,
}
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Data {
	Junk(usize),
	Send(u32),
	Approve,
	Give,
	Unregister,
	Renounce,
	Who,
	Create,
	Pass,
}
#[derive(Clone, Copy, Debug, Hash)]
pub enum Op {
	Call { by: usize, typ: u8, to: To, data: Data, value: u8 },
	Ask(u8),
}
#[derive(Clone, Debug, Hash)]
pub struct M {
	f: H160,
}
fn sink() -> H160 {
	h(0x999)
}
fn target(t: To) -> H160 {
	match t {
		To::Nobody => sink(),
		To::Contract => h(0x3100_0000),
		To::Refuser => h(0x3100_0001),
		To::Xrp => erc20(XRP),
		To::Token => erc20(ROOT),
		To::Itself => fp(1),
		To::Other => fp(2),
		To::Owned => fp(3),
		To::Missing => fp(99),
		To::Registrar => h(65_535),
	}
}
fn data(d: Data) -> Vec<u8> {
	match d {
		Data::Junk(n) => (0..n).map(|i| 0xa0 + i as u8).collect(),
		Data::Send(x) => input("transfer(address,uint256)", &[V::A(sink()), n(x)]),
		Data::Approve => input("approve(address,uint256)", &[V::A(sink()), n(5)]),
		Data::Give => input("transferOwnership(address)", &[V::A(h(0x777))]),
		Data::Unregister => input("unregisterDelegate(address)", &[V::A(p(1))]),
		Data::Renounce => input("renounceOwnership()", &[]),
		Data::Who => input("owner()", &[]),
		Data::Create => input("create(address)", &[V::A(h(0x777))]),
		Data::Pass => input("proxyCall(uint8,address,uint256,bytes)", &[n(1), V::A(sink()), n(0), V::S(vec![])]),
	}
}
const VALUES: [u128; 5] = [0, 5, 1, 0, u128::MAX];
fn value(v: u8) -> U256 {
	match v {
		0 => U256::zero(),
		1 => U256::from(DROP) * 5,
		2 => U256::one(),
		3 => U256::from(DROP) * 5 + 1,
		_ => U256::MAX,
	}
}
fn arm() {
	SEEN.with(|s| s.borrow_mut().clear());
	script(
		target(To::Contract),
		Some(std::rc::Rc::new(|x: &mut dyn PrecompileHandle| {
			let c = x.context().clone();
			SEEN.with(|s| s.borrow_mut().push((c.caller, c.address, c.apparent_value, x.input().to_vec())));
			let a = x.code_address();
			let _ = x.log(a, vec![H256::repeat_byte(7)], vec![1, 2]);
			done(vec![9; 32])
		})),
	);
	script(
		target(To::Refuser),
		Some(std::rc::Rc::new(|x: &mut dyn PrecompileHandle| {
			let a = x.code_address();
			let _ = x.log(a, vec![H256::repeat_byte(8)], vec![]);
			(fp_evm::ExitRevert::Reverted.into(), vec![1; 5])
		})),
	);
}
pub struct S {
	deep: bool,
}
fn kinds(f: H160, who: H160) -> Vec<ProxyType> {
	proxies().into_iter().filter(|x| x.0 == f).flat_map(|x| x.1).filter(|x| x.0 == who).map(|x| x.1).collect()
}
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		3
	}
	fn init(&self, i: usize) -> M {
		genesis(0, 0);
		for k in 0..PEOPLE {
			fund(ROOT, p(k), 100_000);
			fund(XRP, p(k), 1_000_000_000);
		}
		EVM::create_account(target(To::Contract), vec![0x60]);
		EVM::create_account(target(To::Refuser), vec![0x60]);
		let go = |o: H160, c: RuntimeCall| dispatch(signed(o), c.clone()).unwrap_or_else(|e| panic!("set up {c:?}: {e}"));
		let make = |by: usize, who: H160| go(p(by), pallet_futurepass::Call::create { account: at(who) }.into());
		make(0, p(0));
		make(3, p(3));
		make(0, fp(1));
		for k in 1..4 {
			fund(ROOT, fp(k), 10_000);
			fund(XRP, fp(k), if i == 1 { 3 } else { 1000 });
		}
		let add = |f: H160, by: usize, who: usize| {
			go(
				p(by),
				pallet_futurepass::Call::register_delegate_with_signature {
					futurepass: at(f),
					delegate: at(p(who)),
					proxy_type: ProxyType::Any,
					deadline: 9,
					signature: consent(who, f, p(who), 1, 9),
				}
				.into(),
			)
		};
		add(fp(1), 0, 1);
		if i > 0 {
			// kinds of delegates without powers, a delegate elsewhere
			use pallet_futurepass::ProxyProvider;
			for (k, t) in [(2usize, 0u8), (3, 2), (4, 3)] {
				rt::impls::ProxyPalletProvider::add_delegate(&at(p(0)), &at(fp(1)), &at(p(k)), &t).unwrap();
			}
		} else {
			add(fp(2), 3, 2);
		}
		if i == 2 {
			go(p(0), pallet_futurepass::Call::transfer_futurepass { current_owner: at(p(0)), new_owner: None }.into());
		}
		M { f: fp(1) }
	}
	fn ops(&self, _: &M) -> Vec<Op> {
		let mut r = vec![];
		let tos =
			[To::Nobody, To::Contract, To::Refuser, To::Xrp, To::Token, To::Itself, To::Other, To::Owned, To::Missing, To::Registrar];
		let mut datas: Vec<Data> = [0, 1, 2, 3, 4, 5, 31, 32, 33, 64].map(Data::Junk).to_vec();
		datas.extend([Data::Send(7), Data::Send(900_000), Data::Approve, Data::Give, Data::Unregister, Data::Renounce, Data::Who]);
		datas.extend([Data::Create, Data::Pass]);
		for by in 0..PEOPLE {
			for typ in [0, 1, 2, 3, 4, 5, 255] {
				for to in tos {
					for data in &datas {
						for v in 0..VALUES.len() as u8 {
							r.push(Op::Call { by, typ, to, data: *data, value: v });
						}
					}
				}
			}
		}
		for k in 0..6 {
			r.push(Op::Ask(k));
		}
		let _ = self.deep;
		r
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let f = m.f;
		let (by, typ, to, d, v) = match op {
			Op::Ask(k) => {
				let who = if *k < 5 { p(*k as usize) } else { h(0x4444) };
				let t: u8 = kinds(f, who).first().map_or(0, |t| (*t).into());
				let got = view(f, "delegateType(address)", &[V::A(who)]).map_err(|e| format!("view: delegateType {e}"))?;
				req!(got == enc(&[n(t)]), "view: delegateType {got:?}, is {t}");
				let o = holders().into_iter().find(|x| x.1 == f).map_or(H160::zero(), |x| x.0);
				let got = view(f, "owner()", &[]).map_err(|e| format!("view: owner {e}"))?;
				req!(got == enc(&[V::A(o)]), "view: owner {got:?}, is {o:?}");
				return Ok("asked".into());
			},
			Op::Call { by, typ, to, data, value } => (p(*by), *typ, *to, *data, *value),
		};
		arm();
		let h0 = shim::ext::state_hash();
		let k = kinds(f, by);
		let (owner, delegate) = (k.contains(&ProxyType::Owner), k.contains(&ProxyType::Any));
		let (bytes, val, t) = (data(d), value(v), target(to));
		// what the call would do if the futurepass made it itself
		let mode = if typ == 0 { Mode::Static } else { Mode::Call };
		let (want, want_state) = peek(|| {
			let o = evm(f, t, bytes.clone(), val, mode);
			(o, shim::ext::state_hash())
		});
		let want_seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
		let rich = U256::from(bal(XRP, f)) * DROP;
		let got = tx(by, f, "proxyCall(uint8,address,uint256,bytes)", &[n(typ), V::A(t), V::U(val), V::S(bytes.clone())]);
		let seen = SEEN.with(|s| s.borrow().clone());
		if !got.ok() {
			req!(shim::ext::state_hash() == h0, "refused: {op:?} was refused but changed the state");
			req!(got.logs.is_empty(), "refused: {op:?} left logs");
		}
		let admin = matches!(to, To::Itself | To::Other | To::Owned | To::Missing | To::Registrar);
		let allowed = (owner || delegate)
			&& typ < 5
			&& typ != 2
			&& !(admin && !(owner && matches!(d, Data::Give | Data::Unregister)));
		if !allowed && !(admin && typ > 2) {
			req!(!got.ok(), "allowed: {op:?} by {k:?}");
			req!(seen.is_empty(), "allowed: {op:?} by {k:?} reached the contract");
			return Ok(format!("barred {typ}"));
		}
		match typ {
			0 => {
				if !val.is_zero() {
					return Ok("static with value".into());
				}
				req!(got.ok() == want.ok(), "static: {op:?} {:?}, by itself {:?}", got.reason, want.reason);
				req!(got.out == want.out || !got.ok(), "static: {op:?} output {:?}", got.out);
				req!(shim::ext::state_hash() == h0, "static: {op:?} changed the state");
				req!(seen == want_seen, "static: {op:?} {seen:?}");
			},
			1 => {
				req!(got.ok() == want.ok(), "call: {op:?} {:?}, by itself {:?}", got.reason, want.reason);
				req!(got.out == want.out, "call: {op:?} output {:?}, by itself {:?}", got.out, want.out);
				req!(shim::ext::state_hash() == want_state, "call: {op:?} did something else than the futurepass by itself");
				req!(seen == want_seen, "call: {op:?}: {seen:?}, by itself {want_seen:?}");
				if got.ok() {
					let (mut g, mut w) = (got.plain(), want.plain());
					let mut e = log(f, "Executed(uint8,address,uint256,bytes4)", &[n(1), V::A(t), V::U(val)], &[]);
					let mut word = [0; 32];
					word[..bytes.len().min(4)].copy_from_slice(&bytes[..bytes.len().min(4)]);
					e.data = word.to_vec();
					let at = g.iter().position(|x| x.topics == e.topics && x.address == f);
					let Some(at) = at else { return Err(format!("log: {op:?} left no Executed")) };
					let x = g.remove(at);
					req!(bytes.len() < 4 || x.data == e.data, "log: {op:?} Executed {:?}", x.data);
					w.sort_by_key(|l| l.topics.clone());
					g.sort_by_key(|l| l.topics.clone());
					req!(g == w, "log: {op:?} {g:?}, by itself {w:?}");
				}
			},
			_ => {
				if !allowed {
					// what is to be created has no target
					return Ok("created".into());
				}
				let pays = val <= rich;
				let salted = typ == 3 || bytes.len() >= 32;
				req!(got.ok() == (pays && salted), "create: {op:?} {:?}", got.reason);
				if got.ok() {
					req!(got.out.len() == 20, "create: {op:?} output {:?}", got.out);
					let a = H160::from_slice(&got.out);
					req!(
						EVM::is_account_empty(&a) == bytes.is_empty() || !val.is_zero(),
						"create: {op:?} left no contract at {a:?}"
					);
					let now = U256::from(bal(XRP, f)) * DROP;
					req!(rich - now == val - val % DROP || val % DROP != U256::zero(), "create: {op:?} cost {}", rich - now);
					let salt = H256::from_slice(&if typ == 4 { bytes[bytes.len() - 32..].to_vec() } else { vec![0; 32] });
					let e = log(
						f,
						"ContractCreated(uint8,address,uint256,bytes32)",
						&[n(typ), V::A(a), V::U(val)],
						&[V::U(U256::from_big_endian(salt.as_bytes()))],
					);
					req!(got.plain().contains(&e), "log: {op:?} {:?}, not {e:?}", got.plain());
				}
			},
		}
		Ok(format!("{typ} {} {}", got.ok(), if owner { "owner" } else { "delegate" }))
	}
}
pub fn run(ctx: &mut Ctx) {
	let s = S { deep: ctx.thorough() };
	ctx.bfs("calls", &s, depth(1));
}
