//! F02: who can act as a futurepass, and who can administer it, whatever way the call takes.
use crate::people::*;
use explore::*;
use fp_evm::{Context, PrecompileHandle};
use rt::{impls::ProxyType, sim::*, *};
use sp_core::{H160, U256};
const REGISTRAR: u64 = 65_535;
const FEE_PROXY: u64 = 1211;
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Role {
	Nobody,
	Delegate,
	Owner,
}
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Act {
	/// whatever a delegate may do
	SendRoot,
	SendXrp,
	EvmXrp,
	/// administration of the futurepass itself or of one that it owns
	Register(u8),
	Unregister(u8),
	Transfer(u8),
	Renounce(u8),
	EvmRegister(u8),
	EvmUnregister(u8),
	EvmTransfer(u8),
	EvmRenounce(u8),
	FeeUnregister(u8),
	FeeTransfer(u8),
	/// what cannot be done as a futurepass
	Create,
	EvmCreate,
	FeeCreate,
	AddProxy(u8, u8),
	RemoveProxies,
	RemoveProxy(u8),
	Again(u8),
	ProxyAgain(u8),
}
use Act::*;
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Wrap {
	Batch,
	BatchAll,
	Fee,
}
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Way {
	Px,
	Proxy(Option<u8>),
	Precompile,
}
#[derive(Clone, Debug, Hash)]
pub enum Op {
	Do { by: usize, way: Way, outer: Option<Wrap>, inner: Vec<Wrap>, act: Act },
	/// a contract that calls a futurepass
	Contract { by: usize, through: bool, delegate: bool, to: u8, data: u8 },
	/// the owner or a delegate leaves or changes before
	Unregistered,
	Transferred,
	Renounced,
}
#[derive(Clone, Debug, Hash)]
pub struct M {
	f: [H160; 3],
	sink: H160,
}
fn fresh() -> H160 {
	h(0x777)
}
fn to(m: &M, k: u8) -> H160 {
	m.f[k as usize]
}
fn wrap(w: Wrap, c: RuntimeCall) -> RuntimeCall {
	match w {
		Wrap::Batch => pallet_utility::Call::batch { calls: vec![c] }.into(),
		Wrap::BatchAll => pallet_utility::Call::batch_all { calls: vec![c] }.into(),
		Wrap::Fee => pallet_fee_proxy::Call::call_with_fee_preferences { payment_asset: ROOT, max_payment: 1000, call: Box::new(c) }.into(),
	}
}
fn deadline() -> u32 {
	1000
}
/// the same as data for a contract
fn data(m: &M, a: Act) -> Option<(H160, Vec<u8>)> {
	let reg = |k| {
		let s = consent(2, to(m, k), p(2), 1, deadline());
		input("registerDelegateWithSignature(address,uint8,uint32,bytes)", &[V::A(p(2)), n(1), n(deadline()), V::S(s.to_vec())])
	};
	let unreg = || input("unregisterDelegate(address)", &[V::A(p(1))]);
	let give = || input("transferOwnership(address)", &[V::A(fresh())]);
	let create = || input("create(address)", &[V::A(fresh())]);
	let fee = |t: H160, d: Vec<u8>| {
		(h(FEE_PROXY), input("callWithFeePreferences(address,address,bytes)", &[V::A(erc20(ROOT)), V::A(t), V::S(d)]))
	};
	Some(match a {
		EvmXrp => (erc20(XRP), input("transfer(address,uint256)", &[V::A(m.sink), n(7)])),
		EvmRegister(k) => (to(m, k), reg(k)),
		EvmUnregister(k) => (to(m, k), unreg()),
		EvmTransfer(k) => (to(m, k), give()),
		EvmRenounce(k) => (to(m, k), input("renounceOwnership()", &[])),
		EvmCreate => (h(REGISTRAR), create()),
		FeeUnregister(k) => fee(to(m, k), unreg()),
		FeeTransfer(k) => fee(to(m, k), give()),
		FeeCreate => fee(h(REGISTRAR), create()),
		_ => return None,
	})
}
fn call(m: &M, a: Act) -> RuntimeCall {
	use pallet_futurepass::Call as F;
	use pallet_proxy::Call as P;
	let f = to(m, 0);
	let owner = holders().into_iter().find(|x| x.1 == f).map_or(p(0), |x| x.0);
	let typ = |t: u8| ProxyType::try_from(t).unwrap();
	let send = || -> RuntimeCall { pallet_balances::Call::transfer { dest: at(m.sink), value: 7 }.into() };
	match a {
		SendRoot => send(),
		SendXrp => pallet_assets::Call::transfer { id: XRP, target: at(m.sink), amount: 7 }.into(),
		Register(k) => F::register_delegate_with_signature {
			futurepass: at(to(m, k)),
			delegate: at(p(2)),
			proxy_type: ProxyType::Any,
			deadline: deadline(),
			signature: consent(2, to(m, k), p(2), 1, deadline()),
		}
		.into(),
		Unregister(k) => F::unregister_delegate { futurepass: at(to(m, k)), delegate: at(p(1)) }.into(),
		Transfer(k) => {
			F::transfer_futurepass { current_owner: at(if k == 0 { owner } else { f }), new_owner: Some(at(fresh())) }.into()
		},
		Renounce(k) => F::transfer_futurepass { current_owner: at(if k == 0 { owner } else { f }), new_owner: None }.into(),
		Create => F::create { account: at(fresh()) }.into(),
		AddProxy(t, k) => P::add_proxy { delegate: at(p(k as usize)), proxy_type: typ(t), delay: 0 }.into(),
		RemoveProxies => P::remove_proxies {}.into(),
		RemoveProxy(t) => P::remove_proxy {
			delegate: at(if t == 255 { p(0) } else { p(1) }),
			proxy_type: typ(t),
			delay: 0,
		}
		.into(),
		Again(k) => F::proxy_extrinsic { futurepass: at(to(m, k)), call: Box::new(send()) }.into(),
		ProxyAgain(k) => P::proxy { real: at(to(m, k)), force_proxy_type: None, call: Box::new(send()) }.into(),
		_ => {
			let (target, input) = data(m, a).unwrap();
			pallet_evm::Call::call {
				source: f,
				target,
				input,
				value: U256::zero(),
				gas_limit: 1_000_000,
				max_fee_per_gas: U256::from(DROP) * 30,
				max_priority_fee_per_gas: None,
				nonce: None,
				access_list: vec![],
			}
			.into()
		},
	}
}
fn plain(a: Act) -> bool {
	matches!(a, SendRoot | SendXrp | EvmXrp)
}
/// never, even for the owner
fn barred(a: Act) -> bool {
	matches!(a, Create | AddProxy(..) | RemoveProxies | RemoveProxy(_) | Again(_) | ProxyAgain(_))
}
fn contract_at(k: usize) -> H160 {
	h(0x3000_0000 + k as u64)
}
fn arm(m: &M) {
	for k in 0..12usize {
		let (delegate, to, d) = (k >= 6, m.f[if (k % 6) >= 5 { 2 } else { 0 }], k % 6);
		let acts = [EvmRegister(0), EvmUnregister(0), EvmTransfer(0), EvmRenounce(0)];
		let m1 = m.clone();
		let body = match d {
			0..=3 => data(&m1, acts[d]).unwrap().1,
			4 => {
				let (t, x) = data(&m1, EvmXrp).unwrap();
				input("proxyCall(uint8,address,uint256,bytes)", &[n(1), V::A(t), n(0), V::S(x)])
			},
			_ => data(&m1, EvmTransfer(2)).unwrap().1,
		};
		script(
			contract_at(k),
			Some(std::rc::Rc::new(move |x: &mut dyn PrecompileHandle| {
				let c = x.context().clone();
				let ctx = if delegate { c } else { Context { address: to, caller: c.address, apparent_value: U256::zero() } };
				let _ = x.call(to, None, body.clone(), None, false, &ctx);
				done(vec![])
			})),
		);
	}
}
fn role(who: H160, f: H160) -> Role {
	if pallet_futurepass::Holders::<Runtime>::get(at(who)) == Some(at(f)) {
		Role::Owner
	} else if pallet_proxy::Proxies::<Runtime>::get(at(f)).0.iter().any(|d| H160::from(d.delegate) == who && d.proxy_type == ProxyType::Any) {
		Role::Delegate
	} else {
		Role::Nobody
	}
}
fn power() -> (Vec<(H160, H160)>, Vec<(H160, Vec<(H160, ProxyType)>, u128)>, u128) {
	(holders(), proxies(), pallet_futurepass::NextFuturepassId::<Runtime>::get())
}
pub struct S {
	deep: bool,
}
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		3
	}
	fn init(&self, i: usize) -> M {
		genesis(0, 0);
		for k in 0..PEOPLE {
			fund(ROOT, p(k), 100_000);
			fund(XRP, p(k), 1_000_000_000);
		}
		for k in 0..12 {
			EVM::create_account(contract_at(k), vec![0x60]);
		}
		let go = |o: H160, c: RuntimeCall| dispatch(signed(o), c.clone()).unwrap_or_else(|e| panic!("set up {c:?}: {e}"));
		go(
			p(0),
			pallet_dex::Call::add_liquidity {
				token_a: ROOT,
				token_b: XRP,
				amount_a_desired: 50_000,
				amount_b_desired: 500_000_000,
				amount_a_min: 1,
				amount_b_min: 1,
				to: None,
				deadline: None,
			}
			.into(),
		);
		let m = M { f: [fp(1), fp(2), fp(3)], sink: h(0x999) };
		let make = |by: usize, who: H160| go(p(by), pallet_futurepass::Call::create { account: at(who) }.into());
		let add = |f: H160, who: usize| {
			let owner = rt::impls::ProxyPalletProvider::owner_of(&f);
			go(
				owner,
				pallet_futurepass::Call::register_delegate_with_signature {
					futurepass: at(f),
					delegate: at(p(who)),
					proxy_type: ProxyType::Any,
					deadline: 9,
					signature: consent(who, f, p(who), 1, 9),
				}
				.into(),
			)
		};
		// once owned by 4, who is nobody now
		make(4, p(4));
		go(p(4), pallet_futurepass::Call::transfer_futurepass { current_owner: at(p(4)), new_owner: Some(at(p(0))) }.into());
		make(3, p(3));
		make(0, m.f[0]);
		for f in m.f {
			fund(ROOT, f, 10_000);
			fund(XRP, f, 1_000_000_000);
		}
		add(m.f[0], 1);
		if i != 1 {
			add(m.f[0], 2);
			go(p(2), pallet_futurepass::Call::unregister_delegate { futurepass: at(m.f[0]), delegate: at(p(2)) }.into());
		}
		if i == 1 {
			// a delegate of another futurepass, and kinds of delegates without powers
			add(m.f[1], 1);
			use pallet_futurepass::ProxyProvider;
			for (k, t) in [(2usize, 0u8), (3, 2), (4, 3)] {
				rt::impls::ProxyPalletProvider::add_delegate(&at(p(0)), &at(m.f[0]), &at(p(k)), &t).unwrap();
			}
		}
		if i == 2 {
			make(1, p(1));
			add(fp(4), 0);
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut acts = vec![SendRoot, SendXrp, EvmXrp, Create, EvmCreate, FeeCreate, RemoveProxies, RemoveProxy(1), RemoveProxy(255)];
		for k in [0, 2] {
			acts.extend([
				Register(k),
				Unregister(k),
				Transfer(k),
				Renounce(k),
				EvmRegister(k),
				EvmUnregister(k),
				EvmTransfer(k),
				EvmRenounce(k),
				FeeUnregister(k),
				FeeTransfer(k),
				Again(k),
				ProxyAgain(k),
			]);
		}
		for t in [1, 255] {
			acts.extend([AddProxy(t, 2), AddProxy(t, 1)]);
		}
		let ws = [Wrap::Batch, Wrap::BatchAll, Wrap::Fee];
		let mut inner: Vec<Vec<Wrap>> = vec![vec![]];
		inner.extend(ws.iter().map(|w| vec![*w]));
		for a in ws {
			for b in ws {
				inner.push(vec![a, b]);
			}
		}
		let outer: Vec<Option<Wrap>> = std::iter::once(None).chain(ws.iter().map(|w| Some(*w))).collect();
		let mut r = vec![Op::Unregistered, Op::Transferred, Op::Renounced];
		let _ = m;
		for by in 0..PEOPLE {
			for act in &acts {
				for way in [Way::Px, Way::Proxy(None), Way::Proxy(Some(1)), Way::Proxy(Some(255)), Way::Precompile] {
					if way == Way::Precompile {
						if data(m, *act).is_some() {
							r.push(Op::Do { by, way, outer: None, inner: vec![], act: *act });
						}
						continue;
					}
					for o in &outer {
						for i in &inner {
							if self.deep || o.is_none() && i.len() < 2 || i.is_empty() {
								r.push(Op::Do { by, way, outer: *o, inner: i.clone(), act: *act });
							}
						}
					}
				}
			}
			for through in [false, true] {
				for delegate in [false, true] {
					for data in 0..6 {
						r.push(Op::Contract { by, through, delegate, to: 0, data });
					}
				}
			}
		}
		r
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		arm(m);
		let h0 = shim::ext::state_hash();
		let before = power();
		let money = |m: &M| -> Vec<(u128, u128)> {
			m.f.iter().chain([&m.sink]).map(|a| (free(*a) + held(*a), bal(XRP, *a))).collect()
		};
		let m0 = money(m);
		let f = m.f[0];
		match op {
			Op::Unregistered => {
				let _ = dispatch(signed(p(1)), pallet_futurepass::Call::unregister_delegate { futurepass: at(f), delegate: at(p(1)) });
				Ok("unregistered".into())
			},
			Op::Transferred | Op::Renounced => {
				let new_owner = matches!(op, Op::Transferred).then(|| at(p(2)));
				let _ = dispatch(signed(p(0)), pallet_futurepass::Call::transfer_futurepass { current_owner: at(p(0)), new_owner });
				Ok("transferred".into())
			},
			Op::Do { by, way, outer, inner, act } => {
				let role = role(p(*by), f);
				let ok = match way {
					Way::Precompile => {
						let (t, d) = data(m, *act).unwrap();
						tx(p(*by), f, "proxyCall(uint8,address,uint256,bytes)", &[n(1), V::A(t), n(0), V::S(d)]).ok()
					},
					_ => {
						let mut c = call(m, *act);
						for w in inner.iter().rev() {
							c = wrap(*w, c);
						}
						let c = Box::new(c);
						let mut c: RuntimeCall = match way {
							Way::Px => pallet_futurepass::Call::proxy_extrinsic { futurepass: at(f), call: c }.into(),
							Way::Proxy(t) => pallet_proxy::Call::proxy {
								real: at(f),
								force_proxy_type: t.map(|t| ProxyType::try_from(t).unwrap()),
								call: c,
							}
							.into(),
							Way::Precompile => unreachable!(),
						};
						if let Some(w) = outer {
							c = wrap(*w, c);
						}
						dispatch(signed(p(*by)), c).is_ok()
					},
				};
				let now = power();
				// nested fee preferences are refused
				let fees = inner.windows(2).any(|w| w == [Wrap::Fee, Wrap::Fee]);
				let reaches = !fees
					&& match way {
						Way::Proxy(Some(255)) => role == Role::Owner,
						Way::Proxy(Some(_)) => role == Role::Delegate,
						_ => role != Role::Nobody,
					};
				if !reaches {
					req!(shim::ext::state_hash() == h0, "stranger: {role:?} did {act:?} by {way:?} {outer:?} {inner:?}");
					return Ok(format!("{role:?} nothing"));
				}
				if plain(*act) {
					let gained = (free(m.sink), bal(XRP, m.sink));
					let want = if *act == SendRoot { (m0[3].0 + 7, m0[3].1) } else { (m0[3].0, m0[3].1 + 7) };
					req!(gained == want && ok, "useless: {role:?} cannot {act:?} by {way:?} {outer:?} {inner:?}");
					req!(before == now, "powers: {act:?} by {role:?} changed delegates or owners");
					return Ok(format!("{role:?} plain"));
				}
				if barred(*act) || role == Role::Delegate {
					req!(before == now, "powers: {role:?} did {act:?} by {way:?} {outer:?} {inner:?}: {now:?}");
					let others = |x: Vec<(u128, u128)>| x[1..].to_vec();
					req!(others(money(m)) == others(m0), "funds: {role:?} did {act:?} by {way:?} {outer:?} {inner:?}");
					return Ok(format!("{role:?} barred"));
				}
				// the owner may
				let direct = inner.is_empty() && outer.is_none() && *way == Way::Px;
				if direct && matches!(act, Register(0) | Unregister(0) | Transfer(0) | Renounce(0)) {
					let done = match act {
						Unregister(0) => m1_had(&before, f, p(1)),
						Register(0) => !m1_had(&before, f, p(2)),
						Transfer(0) => !before.0.iter().any(|x| x.0 == fresh()),
						_ => true,
					};
					req!((before != now) == done, "owner: {act:?} {before:?} {now:?}");
				}
				Ok(format!("{role:?} admin {}", before != now))
			},
			Op::Contract { by, through, delegate, data: d, .. } => {
				let c = contract_at(*d as usize + if *delegate { 6 } else { 0 });
				if *through {
					let _ = tx(p(*by), f, "proxyCall(uint8,address,uint256,bytes)", &[n(1), V::A(c), n(0), V::S(vec![])]);
				} else {
					let _ = evm(p(*by), c, vec![], U256::zero(), Mode::Call);
				}
				let now = power();
				// a contract that acts in its own name on a futurepass of the futurepass is none of its delegates either
				req!(before == now, "contract: {op:?}: {now:?}");
				req!(money(m) == m0, "contract: {op:?} moved funds");
				Ok(format!("contract {delegate}"))
			},
		}
	}
}
fn m1_had(x: &(Vec<(H160, H160)>, Vec<(H160, Vec<(H160, ProxyType)>, u128)>, u128), f: H160, who: H160) -> bool {
	x.1.iter().any(|y| y.0 == f && y.1.iter().any(|z| z.0 == who))
}
trait OwnerOf {
	fn owner_of(f: &H160) -> H160;
}
impl OwnerOf for rt::impls::ProxyPalletProvider {
	fn owner_of(f: &H160) -> H160 {
		<rt::impls::ProxyPalletProvider as pallet_futurepass::ProxyProvider<Runtime>>::owner(&at(*f)).unwrap().into()
	}
}
pub fn run(ctx: &mut Ctx) {
	let s = S { deep: ctx.thorough() };
	ctx.bfs("roles", &s, depth(2));
}
