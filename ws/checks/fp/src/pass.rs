//! F01: who owns a futurepass, who its delegates are, and what is reserved for that.
use crate::people::*;
use explore::*;
use rt::{impls::ProxyType, sim::*, *};
use sp_core::{H160, U256};
use std::collections::{BTreeMap, BTreeSet};
const REGISTRAR: u64 = 65_535;
const MOST: usize = 32;
const ED: u128 = 1;
fn dep(n: usize) -> u128 {
	if n == 0 {
		0
	} else {
		148 + 126 * n as u128
	}
}
#[derive(Clone, Debug, Default, Hash, PartialEq)]
struct Fp {
	owner: Option<H160>,
	others: BTreeSet<H160>,
}
impl Fp {
	fn n(&self) -> usize {
		self.owner.is_some() as usize + self.others.len()
	}
}
#[derive(Clone, Debug, Hash)]
pub struct M {
	next: u128,
	fps: BTreeMap<H160, Fp>,
	/// ROOT, free and reserved
	money: BTreeMap<H160, (u128, u128)>,
	block: u32,
}
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Route {
	Native,
	Evm,
	/// `proxy_extrinsic` of this futurepass
	Px(H160),
	/// `proxyCall` of this futurepass
	Pc(H160),
}
use Route::*;
#[derive(Clone, Debug, Hash)]
pub enum Op {
	Create { by: usize, who: H160, r: Route },
	Register { by: usize, fp: H160, who: usize, typ: u8, deadline: i8, bad: u8, r: Route },
	Unregister { by: usize, fp: H160, who: H160, r: Route },
	/// natively: of whom; through the EVM: at which futurepass
	Transfer { by: usize, of: H160, at: H160, to: Option<H160>, r: Route },
	Send { by: usize, fp: H160, amount: u128 },
	Fund { fp: H160, amount: u128 },
	/// of the proxy pallet
	Direct { by: usize, who: H160, what: u8, via: Option<H160> },
	Block,
}
impl M {
	fn free(&self, a: H160) -> u128 {
		self.money.get(&a).map_or(0, |x| x.0)
	}
	fn pay(&mut self, from: H160, to: H160, x: u128, keep: bool) -> bool {
		if from == to || x == 0 {
			return true;
		}
		let has = self.money.get(&from).copied().unwrap_or_default();
		let floor = if keep || has.1 > 0 { ED } else { 0 };
		if has.0 < x + floor {
			return false;
		}
		self.money.entry(from).or_default().0 -= x;
		self.money.entry(to).or_default().0 += x;
		true
	}
	fn hold(&mut self, a: H160, n: usize) -> bool {
		let m = self.money.entry(a).or_default();
		let (all, d) = (m.0 + m.1, dep(n));
		if all < d || (d > m.1 && all - d < ED) {
			return false;
		}
		*m = (all - d, d);
		true
	}
	fn holds(&self, a: H160) -> Option<H160> {
		self.fps.iter().find(|x| x.1.owner == Some(a)).map(|x| *x.0)
	}
	fn knows(&self, fp: H160, who: H160) -> bool {
		self.fps.get(&fp).map_or(false, |f| f.owner == Some(who) || f.others.contains(&who))
	}
	fn n(&self, fp: H160) -> usize {
		self.fps.get(&fp).map_or(0, |f| f.n())
	}
	fn add(&mut self, payer: H160, fp: H160, who: H160, owner: bool) -> bool {
		let n = self.n(fp);
		let mut extra = dep(n + 1) - dep(n);
		if self.free(fp) < ED {
			extra += ED;
		}
		if !self.pay(payer, fp, extra, true) || who == fp || self.knows(fp, who) || n == MOST || !self.hold(fp, n + 1) {
			return false;
		}
		let f = self.fps.entry(fp).or_default();
		if owner {
			f.owner = Some(who);
		} else {
			f.others.insert(who);
		}
		true
	}
	fn remove(&mut self, to: H160, fp: H160, who: H160) -> bool {
		let n = self.n(fp);
		let f = self.fps.get_mut(&fp).unwrap();
		if f.owner == Some(who) {
			f.owner = None;
		} else if !f.others.remove(&who) {
			return false;
		}
		self.hold(fp, n - 1) && self.pay(fp, to, dep(n) - dep(n - 1), true)
	}
	/// On whose behalf an administrative call comes in.
	fn acts(&self, by: usize, r: Route) -> Option<H160> {
		match r {
			Native | Evm => Some(p(by)),
			Px(via) | Pc(via) => (self.holds(p(by)) == Some(via)).then_some(via),
		}
	}
	/// What has to happen; None if the call has to be refused.
	fn after(&self, op: &Op) -> Option<M> {
		let mut m = self.clone();
		let ok = match op {
			Op::Create { by, who, r } => {
				// a futurepass cannot create futurepasses
				if m.holds(*who).is_some() || matches!(r, Px(_) | Pc(_)) {
					return None;
				}
				let id = fp(m.next);
				m.next += 1;
				m.add(p(*by), id, *who, true)
			},
			Op::Register { by, fp, who, typ, deadline, bad, r } => {
				let c = m.acts(*by, *r)?;
				(c == *fp || m.holds(c) == Some(*fp))
					&& *typ == 1 && !m.knows(*fp, p(*who))
					&& *deadline >= 0
					&& *bad == 0 && m.add(c, *fp, p(*who), false)
			},
			Op::Unregister { by, fp, who, r } => {
				let c = m.acts(*by, *r)?;
				m.knows(*fp, *who)
					&& m.holds(*who) != Some(*fp)
					&& (m.holds(c) == Some(*fp) || c == *fp || c == *who)
					&& m.remove(c, *fp, *who)
			},
			Op::Transfer { by, of, at, to, r } => {
				let c = m.acts(*by, *r)?;
				let of = match r {
					Native | Px(_) => *of,
					Evm | Pc(_) => c,
				};
				let f = m.holds(of)?;
				if c != of && c != f || matches!(r, Evm | Pc(_)) && *at != f || matches!(r, Pc(_)) && to.is_none() {
					return None;
				}
				match to {
					Some(x) => {
						if m.holds(*x).is_some() || *x == of {
							return None;
						}
						if m.knows(f, *x) && !m.remove(c, f, *x) {
							return None;
						}
						m.fps.get_mut(&f).unwrap().owner = None;
						// the old owner's entry is still there when the new one is added
						let n = m.n(f) + 1;
						let mut extra = dep(n + 1) - dep(n);
						if m.free(f) < ED {
							extra += ED;
						}
						if *x == f || n == MOST || !m.pay(c, f, extra, true) || !m.hold(f, n + 1) {
							return None;
						}
						*m.fps.get_mut(&f).unwrap() = Fp { owner: Some(*x), others: Default::default() };
						let m1 = m.money.get_mut(&f).unwrap();
						let back = m1.1 - dep(1);
						*m1 = (m1.0 + back, dep(1));
						m.pay(f, c, back, true)
					},
					None => {
						let n = m.n(f);
						*m.fps.get_mut(&f).unwrap() = Fp::default();
						let m1 = m.money.get_mut(&f).unwrap();
						*m1 = (m1.0 + m1.1, 0);
						m.pay(f, c, dep(n), false)
					},
				}
			},
			Op::Send { by, fp, amount } => m.knows(*fp, p(*by)) && m.pay(*fp, p(4), *amount, false),
			Op::Fund { fp, amount } => m.pay(p(0), *fp, *amount, false),
			Op::Direct { .. } => false,
			Op::Block => {
				m.block += 1;
				true
			},
		};
		ok.then_some(m)
	}
	fn people(&self) -> Vec<H160> {
		let mut v = all().clone();
		v.extend(self.fps.keys().take(2));
		v
	}
}
fn inner(r: Route, by: usize, call: RuntimeCall, to: H160, data: Vec<u8>) -> Option<bool> {
	match r {
		Native => Some(dispatch(signed(p(by)), call).is_ok()),
		Evm => Some(evm(p(by), to, data, U256::zero(), Mode::Call).ok()),
		Px(via) => {
			let _ = dispatch(
				signed(p(by)),
				pallet_futurepass::Call::proxy_extrinsic { futurepass: at(via), call: Box::new(call) },
			);
			None
		},
		Pc(via) => Some(
			tx(p(by), via, "proxyCall(uint8,address,uint256,bytes)", &[n(1), V::A(to), n(0), V::S(data)]).ok(),
		),
	}
}
fn run_op(m: &M, op: &Op) -> Option<bool> {
	use pallet_futurepass::Call as F;
	match op {
		Op::Create { by, who, r } => inner(
			*r,
			*by,
			F::create { account: at(*who) }.into(),
			h(REGISTRAR),
			input("create(address)", &[V::A(*who)]),
		),
		Op::Register { by, fp, who, typ, deadline, bad, r } => {
			let d = (m.block as i64 + *deadline as i64) as u32;
			let a = p(*who);
			let other = |x: H160| H160(std::array::from_fn(|i| if i == 19 { x.0[19] ^ 1 } else { x.0[i] }));
			let mut sig = match bad {
				1 => consent((*who + 1) % PEOPLE, *fp, a, *typ, d),
				2 => consent(*who, other(*fp), a, *typ, d),
				3 => consent(*who, *fp, a, *typ, d + 1),
				4 => consent(*who, *fp, a, 255, d),
				5 => consent(*who, *fp, other(a), *typ, d),
				_ => consent(*who, *fp, a, *typ, d),
			};
			if *bad == 6 {
				sig[64] = 9;
			}
			let t = ProxyType::try_from(*typ).unwrap();
			inner(
				*r,
				*by,
				F::register_delegate_with_signature { futurepass: at(*fp), delegate: at(a), proxy_type: t, deadline: d, signature: sig }.into(),
				*fp,
				input(
					"registerDelegateWithSignature(address,uint8,uint32,bytes)",
					&[V::A(a), n(*typ), n(d), V::S(sig.to_vec())],
				),
			)
		},
		Op::Unregister { by, fp, who, r } => inner(
			*r,
			*by,
			F::unregister_delegate { futurepass: at(*fp), delegate: at(*who) }.into(),
			*fp,
			input("unregisterDelegate(address)", &[V::A(*who)]),
		),
		Op::Transfer { by, of, at: place, to, r } => inner(
			*r,
			*by,
			F::transfer_futurepass { current_owner: at(*of), new_owner: to.map(at) }.into(),
			*place,
			match to {
				Some(x) => input("transferOwnership(address)", &[V::A(*x)]),
				None => input("renounceOwnership()", &[]),
			},
		),
		Op::Send { by, fp, amount } => {
			inner(Px(*fp), *by, pallet_balances::Call::transfer { dest: at(p(4)), value: *amount }.into(), *fp, vec![])
		},
		Op::Fund { fp, amount } => {
			Some(dispatch(signed(p(0)), pallet_balances::Call::transfer { dest: at(*fp), value: *amount }).is_ok())
		},
		Op::Direct { by, who, what, via } => {
			use pallet_proxy::Call as P;
			let c: RuntimeCall = match what {
				0 => P::add_proxy { delegate: at(*who), proxy_type: ProxyType::Owner, delay: 0 }.into(),
				1 => P::add_proxy { delegate: at(*who), proxy_type: ProxyType::Any, delay: 0 }.into(),
				2 => P::remove_proxies {}.into(),
				3 => P::remove_proxy { delegate: at(*who), proxy_type: ProxyType::Any, delay: 0 }.into(),
				_ => P::remove_proxy { delegate: at(*who), proxy_type: ProxyType::Owner, delay: 0 }.into(),
			};
			match via {
				None => {
					let _ = dispatch(signed(p(*by)), c);
				},
				Some(f) => {
					let _ = dispatch(
						signed(p(*by)),
						pallet_proxy::Call::proxy { real: at(*f), force_proxy_type: None, call: Box::new(c) },
					);
				},
			}
			None
		},
		Op::Block => {
			System::set_block_number(m.block + 1);
			Some(true)
		},
	}
}
fn check(m: &M) -> Check {
	let want: Vec<(H160, H160)> = {
		let mut v: Vec<_> = m.fps.iter().filter_map(|(f, x)| Some((x.owner?, *f))).collect();
		v.sort();
		v
	};
	req!(holders() == want, "holders: {:?} - not {want:?}", holders());
	let want: Vec<_> = m
		.fps
		.iter()
		.filter(|x| x.1.n() > 0)
		.map(|(f, x)| {
			let mut l: Vec<_> = x.others.iter().map(|d| (*d, ProxyType::Any)).chain(x.owner.map(|o| (o, ProxyType::Owner))).collect();
			l.sort();
			(*f, l, dep(x.n()))
		})
		.collect();
	let is: Vec<_> = proxies().into_iter().map(|(a, mut l, d)| { l.sort(); (a, l, d) }).collect();
	req!(is == want, "delegates: {is:?} - not {want:?}");
	for (a, (f, r)) in &m.money {
		req!(free(*a) == *f && held(*a) == *r, "deposit: {a:?} has {} and {} reserved - not {f} and {r}", free(*a), held(*a));
	}
	for f in m.fps.keys().copied().chain([fp(m.next)]) {
		let x = m.fps.get(&f).cloned().unwrap_or_default();
		let o = view(f, "owner()", &[]);
		req!(o == Ok(enc(&[V::A(x.owner.unwrap_or_default())])), "owner: {f:?} answers {o:?}");
		for who in m.people() {
			let t = if x.owner == Some(who) { 255u8 } else { x.others.contains(&who) as u8 };
			let o = view(f, "delegateType(address)", &[V::A(who)]);
			req!(o == Ok(enc(&[n(t)])), "type: {f:?} answers {o:?} for {who:?} - not {t}");
		}
	}
	for who in m.people() {
		let o = view(h(REGISTRAR), "futurepassOf(address)", &[V::A(who)]);
		req!(o == Ok(enc(&[V::A(m.holds(who).unwrap_or_default())])), "futurepassOf: {who:?} {o:?}");
	}
	Ok(())
}
pub struct S {
	part: u8,
	deep: bool,
}
/// sets up through accepted operations
fn doing(m: &mut M, op: Op) {
	let a = m.after(&op).unwrap_or_else(|| panic!("set up {op:?}"));
	let r = run_op(m, &op);
	assert!(r != Some(false), "set up {op:?}");
	*m = a;
}
fn reg(m: &mut M, by: usize, fp: H160, who: usize) {
	doing(m, Op::Register { by, fp, who, typ: 1, deadline: 3, bad: 0, r: Native });
}
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		5
	}
	fn init(&self, i: usize) -> M {
		genesis(0, 0);
		let mut m = M { next: 1, fps: Default::default(), money: Default::default(), block: 1 };
		if i == 4 {
			pallet_futurepass::NextFuturepassId::<Runtime>::put(u64::MAX as u128);
			m.next = u64::MAX as u128;
		}
		for (k, x) in [(0, 5000), (1, 3000), (2, 2000), (3, dep(1) + 2 * ED), (4, 0)] {
			fund(ROOT, p(k), x);
			m.money.insert(p(k), (x, 0));
		}
		let make = |m: &mut M, by: usize, who: H160| {
			let f = fp(m.next);
			doing(m, Op::Create { by, who, r: Native });
			f
		};
		match i {
			1 => {
				let f = make(&mut m, 0, p(0));
				reg(&mut m, 0, f, 1);
				reg(&mut m, 0, f, 2);
				make(&mut m, 3, p(3));
				doing(&mut m, Op::Fund { fp: f, amount: 500 });
			},
			2 => {
				let f = make(&mut m, 0, p(0));
				make(&mut m, 1, f);
				make(&mut m, 1, p(1));
				let g = make(&mut m, 2, p(4));
				doing(&mut m, Op::Fund { fp: f, amount: 700 });
				doing(&mut m, Op::Fund { fp: g, amount: 300 });
				doing(&mut m, Op::Register { by: 4, fp: g, who: 0, typ: 1, deadline: 0, bad: 0, r: Px(g) });
			},
			3 => {
				let f = make(&mut m, 0, p(0));
				fund(ROOT, p(0), 4000);
				m.money.get_mut(&p(0)).unwrap().0 += 4000;
				for k in 0..29u64 {
					use pallet_futurepass::ProxyProvider;
					impls::ProxyPalletProvider::add_delegate(&at(p(0)), &at(f), &at(h(0x900 + k)), &1).unwrap();
					assert!(m.add(p(0), f, h(0x900 + k), false));
				}
				reg(&mut m, 0, f, 1);
			},
			4 => {
				let f = make(&mut m, 0, p(0));
				reg(&mut m, 0, f, 1);
				doing(&mut m, Op::Transfer { by: 0, of: p(0), at: f, to: None, r: Native });
				let g = make(&mut m, 1, p(0));
				reg(&mut m, 0, g, 2);
				doing(&mut m, Op::Transfer { by: 0, of: p(0), at: g, to: Some(p(2)), r: Evm });
			},
			_ => {},
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut r = vec![Op::Block];
		let fps: Vec<H160> = m.fps.keys().copied().chain([fp(m.next)]).take(4).collect();
		let people = m.people();
		let bys: Vec<usize> = if self.deep { (0..PEOPLE).collect() } else { vec![0, 1, 4] };
		let routes = |by: usize| -> Vec<Route> {
			let mut v = vec![Native, Evm];
			// through what he owns, and through one that he does not
			for f in m.fps.keys() {
				if m.holds(p(by)) == Some(*f) || m.knows(*f, p(by)) {
					v.extend([Px(*f), Pc(*f)]);
				}
			}
			v
		};
		for &by in &bys {
			for rt in routes(by) {
				if self.part == 0 {
					for who in &people {
						r.push(Op::Create { by, who: *who, r: rt });
					}
					for f in &fps {
						for to in people.iter().map(|x| Some(*x)).chain([None]) {
							match rt {
								Evm | Pc(_) => r.push(Op::Transfer { by, of: p(by), at: *f, to, r: rt }),
								_ => {
									if let Some(of) = m.fps.get(f).and_then(|x| x.owner) {
										r.push(Op::Transfer { by, of, at: *f, to, r: rt })
									}
								},
							}
						}
					}
				}
				for f in &fps {
					for who in &people {
						r.push(Op::Unregister { by, fp: *f, who: *who, r: rt });
					}
					for who in bys.iter().copied() {
						for deadline in [-1, 0] {
							if self.part == 0 && deadline < 0 {
								continue;
							}
							r.push(Op::Register { by, fp: *f, who, typ: 1, deadline, bad: 0, r: rt });
						}
						if self.part == 1 && (self.deep || matches!(rt, Native | Evm) && matches!(who, 1 | 3)) {
							for bad in 1..7 {
								r.push(Op::Register { by, fp: *f, who, typ: 1, deadline: 1, bad, r: rt });
							}
							for typ in [0, 2, 3, 4, 255] {
								r.push(Op::Register { by, fp: *f, who, typ, deadline: 1, bad: 0, r: rt });
							}
						}
					}
				}
			}
			for f in &fps {
				if self.part == 1 {
					for who in people.iter().take(if self.deep { 9 } else { 2 }) {
						for what in 0..5 {
							r.push(Op::Direct { by, who: *who, what, via: Some(*f) });
						}
					}
				}
				let x = m.free(*f);
				if x > 0 && m.knows(*f, p(by)) {
					for amount in [x, x - 1, 1] {
						if amount > 0 {
							r.push(Op::Send { by, fp: *f, amount });
						}
					}
				}
			}
		}
		for f in &fps {
			for amount in [1, 126, 127, 300] {
				r.push(Op::Fund { fp: *f, amount });
			}
		}
		r
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let h0 = shim::ext::state_hash();
		let want = m.after(op);
		let got = run_op(m, op);
		let name = format!("{op:?}").split(' ').next().unwrap().to_string();
		if let Some(g) = got {
			req!(g == want.is_some(), "taken: {op:?} is {} by {m:?}", if g { "taken" } else { "refused" });
		}
		match want {
			None => {
				req!(shim::ext::state_hash() == h0, "changed: {op:?} has to be refused");
				check(m)?;
				Ok(format!("{name} refused"))
			},
			Some(a) => {
				*m = a;
				check(m)?;
				Ok(format!("{name} taken"))
			},
		}
	}
}
/// What a delegate signed, against what is handed in.
#[derive(Clone, Debug, Hash)]
struct Consent {
	now: u32,
	given: u32,
	signed: u32,
	/// a byte that differs, of: futurepass 0-19, delegate 20-39, type 40, signature 41-105
	differs: Option<u8>,
	evm: bool,
	/// the futurepass itself hands it in
	itself: bool,
}
fn consents(deep: bool) -> Vec<Consent> {
	let mut r = vec![];
	let mut grid: Vec<u32> = (0..32).map(|b| 1 << b).chain([0, 3, 255, 65_535, (1 << 24) - 1, (1 << 24) + 5, u32::MAX]).collect();
	grid.sort();
	for now in [1u32, 2, 256, 300, 65_536, 70_000, (1 << 24) + 5, u32::MAX - 1, u32::MAX] {
		let mut to = grid.clone();
		to.extend([now.saturating_sub(1), now, now.saturating_add(1)]);
		to.sort();
		to.dedup();
		for &given in &to {
			for evm in [false, true] {
				for itself in [false, true] {
					let c = Consent { now, given, signed: given, differs: None, evm, itself };
					r.push(c.clone());
					for &signed in to.iter().chain(&[given ^ 0x0100_0000, given ^ 0x8000_0000, given ^ 0x0001_0000]) {
						if signed != given && given >= now && (deep || now == 1 || now == 300) {
							r.push(Consent { signed, ..c.clone() })
						}
					}
					if given == now || deep && given > now {
						r.extend((0..106).map(|i| Consent { differs: Some(i), ..c.clone() }))
					}
				}
			}
		}
	}
	r
}
fn consenting(c: &Consent) -> Step {
	thread_local! { static BASE: (M, shim::ext::State) = {
		let m = S { part: 1, deep: false }.init(2);
		(m, shim::ext::snapshot())
	} }
	let mut m = BASE.with(|(m, s)| {
		shim::ext::restore(s);
		m.clone()
	});
	System::set_block_number(c.now);
	let f = m.holds(p(0)).unwrap();
	let d = p(3);
	let bit = |x: H160, at: u8| {
		let mut x = x;
		if let Some(k) = c.differs.filter(|k| (at..at + 20).contains(k)) {
			x.0[(k - at) as usize] ^= 1;
		}
		x
	};
	let mut sig = consent(3, bit(f, 0), bit(d, 20), 1 ^ (c.differs == Some(40)) as u8, c.signed);
	if let Some(k) = c.differs.filter(|k| *k > 40) {
		sig[k as usize - 41] ^= 1;
	}
	let call = pallet_futurepass::Call::register_delegate_with_signature {
		futurepass: at(f),
		delegate: at(d),
		proxy_type: ProxyType::Any,
		deadline: c.given,
		signature: sig,
	};
	let data = input("registerDelegateWithSignature(address,uint8,uint32,bytes)", &[V::A(d), n(1u8), n(c.given), V::S(sig.to_vec())]);
	let by = if c.itself { f } else { p(0) };
	let h0 = shim::ext::state_hash();
	let ok = if c.evm { evm(by, f, data, U256::zero(), Mode::Call).ok() } else { dispatch(signed(by), call).is_ok() };
	let want = c.differs.is_none() && c.signed == c.given && c.given >= c.now;
	req!(ok == want, "consent: {} with {c:?}", if ok { "taken" } else { "refused" });
	if want {
		req!(m.add(by, f, d, false), "consent: cannot be paid for");
	} else {
		req!(shim::ext::state_hash() == h0, "changed: {c:?} has to be refused");
	}
	let list: BTreeSet<H160> = pallet_proxy::Proxies::<Runtime>::get(at(f)).0.iter().map(|x| x.delegate.into()).collect();
	let x = &m.fps[&f];
	req!(list == x.others.iter().copied().chain(x.owner).collect(), "delegates: {list:?} - not {x:?}");
	Ok(if want { "consent taken".into() } else { "consent refused".into() })
}
pub fn run(ctx: &mut Ctx) {
	let deep = ctx.thorough();
	ctx.enumerate("consents", consents(deep).into_iter(), consenting);
	let d = ctx.pick(2, 3);
	let s = S { part: 0, deep: ctx.thorough() };
	ctx.bfs("ownership", &s, depth(d));
	let s = S { part: 1, deep: ctx.thorough() };
	ctx.bfs("delegates", &s, depth(d));
}
