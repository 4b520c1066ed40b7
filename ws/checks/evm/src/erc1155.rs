//! V03: SFT collections seen through ERC1155, compared with the pallet's own extrinsics.
use crate::hook::*;
use explore::*;
use pallet_sft::Call as C;
use rt::{sim::*, *};
use sp_core::{H160, U256};
use std::collections::BTreeSet;
const PEOPLE: usize = 3;
const IDS: u32 = 4;
#[derive(Clone, Hash, Debug, Default)]
pub struct M {
	coll: u32,
	ops: BTreeSet<(H160, H160)>,
}
type Pairs = Vec<(U256, U256)>;
#[derive(Clone, Debug)]
pub enum Op {
	Move { who: H160, from: H160, to: H160, id: U256, amount: U256, data: Vec<u8> },
	Batch { who: H160, from: H160, to: H160, what: Pairs, extra: bool },
	ForAll { who: H160, op: H160, on: bool },
	Burn { who: H160, from: H160, what: Pairs, batch: bool, extra: bool },
	Mint { who: H160, to: H160, what: Pairs, batch: bool, extra: bool },
	Create { who: H160, name: Vec<u8>, initial: U256, max: U256, to: H160 },
	MaxSupply { who: H160, id: U256, max: U256 },
	BaseUri { who: H160, uri: Vec<u8> },
	Give { who: H160, to: Option<H160> },
	Public { who: H160, id: U256, on: bool },
	Fee { who: H160, id: U256, asset: H160, fee: U256 },
}
struct Plan {
	call: Option<(RuntimeOrigin, RuntimeCall)>,
	logs: Vec<Log>,
	out: Vec<u8>,
}
const RCV: &str = "onERC1155Received(address,address,uint256,uint256,bytes)";
const RCVB: &str = "onERC1155BatchReceived(address,address,uint256[],uint256[],bytes)";
fn id32(x: &U256) -> Option<u32> {
	(*x <= U256::from(u32::MAX)).then(|| x.as_u32())
}
fn a128(x: &U256) -> Option<u128> {
	(*x <= U256::from(u128::MAX)).then(|| x.as_u128())
}
fn who_is(a: H160) -> Option<usize> {
	(0..RECEIVERS.len()).find(|i| receiver(*i) == a)
}
fn lists(p: &Pairs, extra: bool) -> (V, V) {
	let mut ids: Vec<V> = p.iter().map(|x| n(x.0)).collect();
	let am = p.iter().map(|x| n(x.1)).collect();
	if extra {
		ids.push(n(0));
	}
	(V::L(ids), V::L(am))
}
fn pairs(p: &Pairs) -> Option<Vec<(u32, u128)>> {
	p.iter().map(|x| Some((id32(&x.0)?, a128(&x.1)?))).collect()
}
impl M {
	fn at(&self) -> H160 {
		erc1155(self.coll)
	}
	fn may(&self, who: H160, from: H160) -> bool {
		who == from || self.ops.contains(&(from, who))
	}
	fn plan(&mut self, op: &Op) -> Option<Plan> {
		let coll = self.coll;
		let a = self.at();
		let p = |o: H160, c: C<Runtime>, l: Log, out: Vec<u8>| Some(Plan { call: Some((signed(o), c.into())), logs: vec![l], out });
		let zero = H160::zero();
		let moved = |op: &H160, from: H160, to: H160, what: &Pairs, batch: bool| {
			let t = [V::A(*op), V::A(from), V::A(to)];
			if batch {
				let (i, x) = lists(what, false);
				log(a, "TransferBatch(address,address,address,uint256[],uint256[])", &t, &[i, x])
			} else {
				log(a, "TransferSingle(address,address,address,uint256,uint256)", &t, &[n(what[0].0), n(what[0].1)])
			}
		};
		match op {
			Op::Move { who, from, to, id, amount, .. } => {
				let what = vec![(*id, *amount)];
				if *to == zero || !self.may(*who, *from) || who_is(*to).map(|i| !accepts(i)).unwrap_or(false) {
					return None;
				}
				let c = C::transfer { collection_id: coll, serial_numbers: pairs(&what)?.try_into().unwrap(), new_owner: sim::at(*to) };
				p(*from, c, moved(who, *from, *to, &what, false), vec![])
			},
			Op::Batch { who, from, to, what, extra } => {
				if *extra || *to == zero || !self.may(*who, *from) || who_is(*to).map(|i| !accepts(i)).unwrap_or(false) {
					return None;
				}
				let c = C::transfer { collection_id: coll, serial_numbers: pairs(what)?.try_into().ok()?, new_owner: sim::at(*to) };
				p(*from, c, moved(who, *from, *to, what, true), vec![])
			},
			Op::ForAll { who, op, on } => {
				if who == op {
					return None;
				}
				if *on {
					self.ops.insert((*who, *op));
				} else {
					self.ops.remove(&(*who, *op));
				}
				let l = log(a, "ApprovalForAll(address,address,bool)", &[V::A(*who), V::A(*op)], &[V::B(*on)]);
				Some(Plan { call: None, logs: vec![l], out: vec![] })
			},
			Op::Burn { who, from, what, batch, extra } => {
				if *extra || !self.may(*who, *from) {
					return None;
				}
				let c = C::burn { collection_id: coll, serial_numbers: pairs(what)?.try_into().ok()? };
				p(*from, c, moved(who, *from, zero, what, *batch), vec![])
			},
			Op::Mint { who, to, what, batch, extra } => {
				if *extra {
					return None;
				}
				let c = C::mint { collection_id: coll, serial_numbers: pairs(what)?.try_into().ok()?, token_owner: Some(sim::at(*to)) };
				p(*who, c, moved(who, zero, *to, what, *batch), vec![])
			},
			Op::Create { who, name, initial, max, to } => {
				let m = a128(max)?;
				let c = C::create_token {
					collection_id: coll,
					token_name: name.clone().try_into().ok()?,
					initial_issuance: a128(initial)?,
					max_issuance: (m > 0).then_some(m),
					token_owner: (*to != zero).then(|| sim::at(*to)),
				};
				let next = pallet_sft::SftCollectionInfo::<Runtime>::get(coll)?.next_serial_number;
				p(*who, c, log(a, "TokenCreated(uint32)", &[n(next)], &[]), enc(&[n(next)]))
			},
			Op::MaxSupply { who, id, max } => {
				let c = C::set_max_issuance { token_id: (coll, id32(id)?), max_issuance: a128(max)? };
				p(*who, c, log(a, "MaxSupplyUpdated(uint128)", &[n(*max)], &[]), vec![])
			},
			Op::BaseUri { who, uri } => {
				let metadata_scheme = seed_primitives::MetadataScheme::try_from(uri.as_slice()).ok()?;
				let c = C::set_base_uri { collection_id: coll, metadata_scheme };
				p(*who, c, log(a, "BaseURIUpdated(string)", &[], &[V::S(uri.clone())]), vec![])
			},
			Op::Give { who, to } => {
				let t = to.unwrap_or(zero);
				let c = C::set_owner { collection_id: coll, new_owner: sim::at(t) };
				p(*who, c, log(a, "OwnershipTransferred(address,address)", &[V::A(*who), V::A(t)], &[]), enc(&[V::B(true)]))
			},
			Op::Public { who, id, on } => {
				let c = C::toggle_public_mint { token_id: (coll, id32(id)?), enabled: *on };
				p(*who, c, log(a, "PublicMintToggled(uint32,bool)", &[n(*id)], &[V::B(*on)]), vec![])
			},
			Op::Fee { who, id, asset, fee } => {
				let ass = [ROOT, XRP].into_iter().find(|i| erc20(*i) == *asset)?;
				let f = a128(fee)?;
				let c = C::set_mint_fee { token_id: (coll, id32(id)?), pricing_details: (f > 0).then_some((ass, f)) };
				p(*who, c, log(a, "MintFeeUpdated(uint32,address,uint128)", &[n(*id), V::A(*asset), n(*fee)], &[]), vec![])
			},
		}
	}
}
fn send(m: &M, op: &Op) -> Out {
	let a = m.at();
	match op {
		Op::Move { who, from, to, id, amount, data } => {
			let b = [V::A(*from), V::A(*to), n(*id), n(*amount), V::S(data.clone())];
			tx(*who, a, "safeTransferFrom(address,address,uint256,uint256,bytes)", &b)
		},
		Op::Batch { who, from, to, what, extra } => {
			let (i, x) = lists(what, *extra);
			let b = [V::A(*from), V::A(*to), i, x, V::S(vec![5; 3])];
			tx(*who, a, "safeBatchTransferFrom(address,address,uint256[],uint256[],bytes)", &b)
		},
		Op::ForAll { who, op, on } => tx(*who, a, "setApprovalForAll(address,bool)", &[V::A(*op), V::B(*on)]),
		Op::Burn { who, from, what, batch, extra } => {
			if *batch {
				let (i, x) = lists(what, *extra);
				tx(*who, a, "burnBatch(address,uint256[],uint256[])", &[V::A(*from), i, x])
			} else {
				tx(*who, a, "burn(address,uint256,uint256)", &[V::A(*from), n(what[0].0), n(what[0].1)])
			}
		},
		Op::Mint { who, to, what, batch, extra } => {
			if *batch {
				let (i, x) = lists(what, *extra);
				tx(*who, a, "mintBatch(address,uint256[],uint256[])", &[V::A(*to), i, x])
			} else {
				tx(*who, a, "mint(address,uint256,uint256)", &[V::A(*to), n(what[0].0), n(what[0].1)])
			}
		},
		Op::Create { who, name, initial, max, to } => {
			let b = [V::S(name.clone()), n(*initial), n(*max), V::A(*to)];
			tx(*who, a, "createToken(bytes,uint128,uint128,address)", &b)
		},
		Op::MaxSupply { who, id, max } => tx(*who, a, "setMaxSupply(uint256,uint32)", &[n(*id), n(*max)]),
		Op::BaseUri { who, uri } => tx(*who, a, "setBaseURI(bytes)", &[V::S(uri.clone())]),
		Op::Give { who, to: Some(x) } => tx(*who, a, "transferOwnership(address)", &[V::A(*x)]),
		Op::Give { who, to: None } => tx(*who, a, "renounceOwnership()", &[]),
		Op::Public { who, id, on } => tx(*who, a, "togglePublicMint(uint256,bool)", &[n(*id), V::B(*on)]),
		Op::Fee { who, id, asset, fee } => tx(*who, a, "setMintFee(uint256,address,uint128)", &[n(*id), V::A(*asset), n(*fee)]),
	}
}
fn check(m: &M) -> Check {
	let v = |sig: &str, x: &[V]| view(m.at(), sig, x);
	let all: Vec<H160> = (0..PEOPLE).map(user).chain([receiver(0), receiver(5)]).collect();
	let (mut who, mut ids, mut sums) = (vec![], vec![], vec![]);
	for id in 0..IDS {
		let info = pallet_sft::TokenInfo::<Runtime>::get((m.coll, id));
		let got = v("exists(uint256)", &[n(id)]);
		req!(got == Ok(enc(&[V::B(info.is_some())])), "view: exists({id}) is {got:?} - {}", info.is_some());
		let got = v("totalSupply(uint256)", &[n(id)]);
		let t = info.as_ref().map(|i| i.token_issuance).unwrap_or(0);
		req!(got == Ok(enc(&[n(t)])), "view: totalSupply({id}) is {got:?} - not {t}");
		let got = v("uri(uint256)", &[n(id)]);
		let uri = Sft::token_uri((m.coll, id));
		req!(got == Ok(enc(&[V::S(uri.clone())])), "view: uri({id}) is {got:?} - not {uri:?}");
		for a in &all {
			let b = info.as_ref().map(|i| i.free_balance_of(&at(*a))).unwrap_or(0);
			let got = v("balanceOf(address,uint256)", &[V::A(*a), n(id)]);
			req!(got == Ok(enc(&[n(b)])), "view: balanceOf({a:?},{id}) is {got:?} - not {b}");
			who.push(V::A(*a));
			ids.push(n(id));
			sums.push(n(b));
		}
	}
	let got = v("balanceOfBatch(address[],uint256[])", &[V::L(who.clone()), V::L(ids.clone())]);
	req!(got == Ok(enc(&[V::L(sums.clone())])), "view: balanceOfBatch is {got:?}");
	ids.pop();
	req!(v("balanceOfBatch(address[],uint256[])", &[V::L(who), V::L(ids)]).is_err(), "view: balanceOfBatch of unequal lists");
	for x in ["exists(uint256)", "totalSupply(uint256)", "uri(uint256)"] {
		req!(v(x, &[n(U256::from(1u64 << 32))]).is_err(), "view: {x} of 2^32 answered");
	}
	req!(v("balanceOf(address,uint256)", &[V::A(user(0)), n(U256::from(1u64 << 32))]).is_err(), "view: balanceOf 2^32 answered");
	for a in &all {
		for b in &all {
			let w = m.ops.contains(&(*a, *b));
			let got = v("isApprovedForAll(address,address)", &[V::A(*a), V::A(*b)]);
			req!(got == Ok(enc(&[V::B(w)])), "operator: {b:?} of {a:?} is {got:?} - not {w}");
		}
	}
	let o: H160 = Sft::get_collection_owner(m.coll).ok_or("collection: gone")?.into();
	req!(v("owner()", &[]) == Ok(enc(&[V::A(o)])), "view: owner is {:?} - not {o:?}", v("owner()", &[]));
	Ok(())
}
fn step(m: &mut M, op: &Op) -> Step {
	let h0 = shim::ext::state_hash();
	let before = m.clone();
	let single = matches!(op, Op::Move { .. });
	let back = input("safeTransferFrom(address,address,uint256,uint256,bytes)", &[V::A(receiver(5)), V::A(user(0)), n(0), n(1), V::S(vec![])]);
	arm(magic(if single { RCV } else { RCVB }), Some((m.at(), back)));
	let plan = m.plan(op);
	let want = match &plan {
		None => None,
		Some(Plan { call: None, .. }) => Some(None),
		Some(Plan { call: Some((o, c)), .. }) => peek(|| dispatch(o.clone(), c.clone()).ok().map(|_| Some(shim::ext::state_hash()))),
	};
	let o = send(m, op);
	let q = asked();
	match (&want, o.ok()) {
		(None, true) => return Err(format!("accepted: {op:?}")),
		(Some(_), false) => return Err(format!("refused: {op:?} - {:?}", o.reason)),
		_ => {},
	}
	if let (Some(w), Some(p)) = (&want, &plan) {
		if let Some(w) = w {
			req!(shim::ext::state_hash() == *w, "effect: {op:?} does not do what the pallet's call does");
		}
		let got = o.plain();
		req!(got == p.logs, "logs: {op:?} wrote {got:?} - not {:?}", p.logs);
		req!(o.out == p.out, "output: {op:?} answered {:?} - not {:?}", o.out, p.out);
		let ask = match op {
			Op::Move { who, from, to, id, amount, data } if who_is(*to).is_some() => {
				Some((*to, input(RCV, &[V::A(*who), V::A(*from), n(*id), n(*amount), V::S(data.clone())])))
			},
			Op::Batch { who, from, to, what, .. } if who_is(*to).is_some() => {
				let (i, x) = lists(what, false);
				Some((*to, input(RCVB, &[V::A(*who), V::A(*from), i, x, V::S(vec![5; 3])])))
			},
			_ => None,
		};
		match ask {
			None => req!(q.is_empty(), "receiver: asked by {op:?}"),
			Some((to, data)) => {
				req!(q.len() == 1, "receiver: asked {} times by {op:?}", q.len());
				req!(q[0].input == data, "receiver: asked with {:?} by {op:?} - not {data:?}", q[0].input);
				req!(q[0].sender == m.at(), "receiver: asked by {:?} - not by the collection", q[0].sender);
				req!(Some(q[0].logs_state) == *w, "receiver: asked before it has the tokens");
				let x = &q[0];
				req!(x.who == to && x.value.is_zero() && !x.is_static, "receiver: asked as {x:?}");
			},
		}
	} else {
		*m = before;
		req!(shim::ext::state_hash() == h0, "refused-but-changed: {op:?}");
		req!(o.logs.is_empty(), "refused-but-logged: {op:?}");
	}
	check(m)?;
	Ok(format!("{} {}", kind(op), if want.is_some() { "done" } else { "refused" }))
}
pub fn create(owner: H160) -> u32 {
	let known: BTreeSet<u32> = pallet_sft::SftCollectionInfo::<Runtime>::iter().map(|x| x.0).collect();
	let c = C::<Runtime>::create_collection {
		collection_name: b"sft".to_vec().try_into().unwrap(),
		collection_owner: None,
		metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://a.b/".as_slice()).unwrap(),
		royalties_schedule: None,
	};
	dispatch(signed(owner), c).unwrap();
	pallet_sft::SftCollectionInfo::<Runtime>::iter().map(|x| x.0).find(|x| !known.contains(x)).unwrap()
}
pub struct S {
	pub part: u8,
	pub rich: bool,
}
fn u(x: u64) -> U256 {
	x.into()
}
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		2
	}
	fn init(&self, i: usize) -> M {
		genesis(PEOPLE, 1000);
		deploy();
		let coll = create(user(0));
		let mut m = M { coll, ..Default::default() };
		let mut go = |op: Op| {
			let r = step(&mut m, &op);
			assert!(r.as_ref().map(|x| !x.contains("refused")).unwrap_or(true), "setting up: {op:?} {r:?}");
		};
		for (initial, max) in [(3, 0), (2, 5), (1500, 0)] {
			go(Op::Create { who: user(0), name: b"t".to_vec(), initial: u(initial), max: u(max), to: user(0) });
		}
		if i == 1 {
			go(Op::ForAll { who: user(0), op: user(1), on: true });
			go(Op::Mint { who: user(0), to: receiver(5), what: vec![(u(0), u(2))], batch: false, extra: false });
			go(Op::Move { who: user(1), from: user(0), to: user(1), id: u(1), amount: u(1), data: vec![] });
			go(Op::Public { who: user(0), id: u(0), on: true });
			go(Op::Fee { who: user(0), id: u(0), asset: erc20(XRP), fee: u(7) });
		}
		m
	}
	fn ops(&self, _m: &M) -> Vec<Op> {
		let mut v = vec![];
		let r = self.rich;
		let big = U256::from(1u64 << 32);
		let huge = U256::from(u128::MAX) + 1;
		let people: Vec<H160> = (0..PEOPLE).map(user).collect();
		let lists: Vec<Pairs> = vec![
			vec![],
			vec![(u(0), u(1)), (u(1), u(1))],
			vec![(u(0), u(2)), (u(0), u(2))],
			vec![(u(0), u(1)), (u(1), u(9))],
			vec![(u(0), u(1)), (big, u(1))],
			vec![(u(0), u(1)), (u(1), huge)],
			vec![(u(0), u(0))],
			(0..1001).map(|_| (u(2), u(1))).collect(),
			(0..1000).map(|_| (u(2), u(1))).collect(),
		];
		match self.part {
			0 => {
				for &who in &people {
					for &from in &people {
						for &to in people.iter().chain([&H160::zero()]) {
							for (id, amount) in [(0, 1), (1, 1), (0, 3)] {
								v.push(Op::Move { who, from, to, id: u(id), amount: u(amount), data: vec![] });
							}
							v.push(Op::Batch { who, from, to, what: lists[1].clone(), extra: false });
						}
						let to = user(2);
						for (id, amount) in [(u(7), u(1)), (big, u(1)), (u(0), huge + 1), (u(0), u(0)), (u(0), u(u64::MAX))] {
							v.push(Op::Move { who, from, to, id, amount, data: vec![] });
							v.push(Op::Burn { who, from, what: vec![(id, amount)], batch: false, extra: false });
						}
						for what in lists.iter().skip(if r { 0 } else { 2 }) {
							v.push(Op::Batch { who, from, to, what: what.clone(), extra: false });
							v.push(Op::Burn { who, from, what: what.clone(), batch: true, extra: false });
						}
						v.push(Op::Batch { who, from, to, what: lists[1].clone(), extra: true });
						v.push(Op::Burn { who, from, what: lists[1].clone(), batch: true, extra: true });
						if !r {
							v.push(Op::Burn { who, from, what: lists[1].clone(), batch: true, extra: false });
						}
						v.push(Op::Burn { who, from, what: vec![(u(0), u(1))], batch: false, extra: false });
						v.push(Op::ForAll { who, op: from, on: true });
						v.push(Op::ForAll { who, op: from, on: false });
					}
				}
			},
			1 => {
				for &who in people.iter().take(2) {
					for i in 0..RECEIVERS.len() {
						for data in if r { vec![vec![], vec![1; 65]] } else { vec![vec![1; 33]] } {
							for from in [user(0), user(1), receiver(5)] {
								v.push(Op::Move { who, from, to: receiver(i), id: u(0), amount: u(1), data: data.clone() });
							}
						}
						v.push(Op::Batch { who, from: user(0), to: receiver(i), what: lists[1].clone(), extra: false });
						v.push(Op::Batch { who, from: user(1), to: receiver(i), what: lists[1].clone(), extra: false });
						v.push(Op::Batch { who, from: user(0), to: receiver(i), what: lists[0].clone(), extra: false });
					}
					v.push(Op::ForAll { who, op: user(1), on: true });
				}
			},
			_ => {
				for &who in people.iter().take(2) {
					for what in [(u(0), u(1)), (u(1), u(3)), (u(1), u(4)), (u(9), u(1)), (big, u(1)), (u(0), huge), (u(0), U256::from(u128::MAX))] {
						v.push(Op::Mint { who, to: user(2), what: vec![what], batch: false, extra: false });
					}
					for what in &lists {
						v.push(Op::Mint { who, to: user(2), what: what.clone(), batch: true, extra: false });
					}
					v.push(Op::Mint { who, to: user(2), what: lists[1].clone(), batch: true, extra: true });
					for (initial, max) in [(u(0), u(0)), (u(2), u(2)), (u(3), u(2)), (huge, u(0)), (u(0), huge), (U256::from(u128::MAX), u(0))] {
						v.push(Op::Create { who, name: b"new".to_vec(), initial, max, to: user(1) });
					}
					v.push(Op::Create { who, name: b"new".to_vec(), initial: u(1), max: u(0), to: H160::zero() });
					v.push(Op::Create { who, name: vec![], initial: u(1), max: u(0), to: user(2) });
					v.push(Op::Create { who, name: vec![b'x'; 201], initial: u(1), max: u(0), to: user(2) });
					for (id, max) in [(u(0), u(5)), (u(0), u(1)), (u(0), u(0)), (u(1), u(9)), (u(7), u(9)), (big, u(9)), (u(0), huge + 9)] {
						v.push(Op::MaxSupply { who, id, max });
					}
					for uri in [&b""[..], b"ipfs://x", &[b'a'; 33], &[b'a'; 300]] {
						v.push(Op::BaseUri { who, uri: uri.to_vec() });
					}
					v.push(Op::Give { who, to: None });
					for x in &people {
						v.push(Op::Give { who, to: Some(*x) });
					}
					for id in [u(0), u(1), u(7), big] {
						v.push(Op::Public { who, id, on: true });
						v.push(Op::Public { who, id, on: false });
						v.push(Op::Fee { who, id, asset: erc20(XRP), fee: u(3) });
					}
					for (a, x) in [(erc20(ROOT), u(0)), (erc20(ROOT), huge + 5), (erc721(ROOT), u(3)), (erc20(ROOT), huge - 1)] {
						v.push(Op::Fee { who, id: u(0), asset: a, fee: x });
					}
				}
			},
		}
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		step(m, op)
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)
	}
}
pub fn run(ctx: &mut Ctx) {
	let rich = ctx.thorough();
	ctx.assume("gas is not exhausted; receiving contracts are scripted (no bytecode is interpreted)");
	ctx.bfs("holders", &S { part: 0, rich }, depth(ctx.pick(2, 3)));
	ctx.bfs("receivers", &S { part: 1, rich }, depth(ctx.pick(2, 3)));
	ctx.bfs("collection", &S { part: 2, rich }, depth(ctx.pick(2, 3)));
}
