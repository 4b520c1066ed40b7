//! V02: NFT collections seen through ERC721. What a call does to the state is compared with what
//! the pallet's own extrinsic does; who may make it with a model of the approvals.
use crate::hook::*;
use codec::Encode as _;
use explore::*;
use rt::{sim::*, *};
use seed_pallet_common::NFTExt;
use sp_core::{H160, H256, U256};
use std::collections::{BTreeMap, BTreeSet};
const PEOPLE: usize = 3;
#[derive(Clone, Hash, Debug, Default)]
pub struct M {
	coll: u32,
	/// one without tokens
	bare: u32,
	appr: BTreeMap<u32, H160>,
	ops: BTreeSet<(H160, H160)>,
}
#[derive(Clone, Debug)]
pub enum Safe {
	No,
	Short,
	Data(Vec<u8>),
}
#[derive(Clone, Debug)]
pub enum Op {
	Move { who: H160, from: H160, to: H160, id: U256, safe: Safe },
	Approve { who: H160, to: H160, id: U256 },
	ForAll { who: H160, op: H160, on: bool },
	Burn { who: H160, id: U256 },
	Mint { who: H160, to: H160, count: U256 },
	Admin { who: H160, what: Admin },
	Native { who: H160, what: Nat },
}
#[derive(Clone, Debug)]
pub enum Admin {
	MaxSupply(U256),
	BaseUri(Vec<u8>),
	Give(H160),
	Renounce,
	Public(bool),
	Fee(H160, U256),
	Xls20(bool),
	Again(Vec<U256>),
}
#[derive(Clone, Debug)]
pub enum Nat {
	Transfer(u32, H160),
	Burn(u32),
	RemoveApproval(u32),
	Signed(u8, bool),
}
struct Plan {
	call: Option<(RuntimeOrigin, RuntimeCall)>,
	logs: Vec<Log>,
	/// logs of which only the first topic is fixed
	loose: bool,
	out: Vec<u8>,
}
const RCV: &str = "onERC721Received(address,address,uint256,bytes)";
const TR: &str = "Transfer(address,address,uint256)";
fn small(x: &U256) -> Option<u32> {
	(*x <= U256::from(u32::MAX)).then(|| x.as_u32())
}
fn who_is(a: H160) -> Option<usize> {
	(0..RECEIVERS.len()).find(|i| receiver(*i) == a)
}
impl M {
	fn owner(&self, id: u32) -> Option<H160> {
		Nft::get_token_owner(&(self.coll, id)).map(|a| a.into())
	}
	fn may(&self, who: H160, id: u32) -> bool {
		match self.owner(id) {
			None => false,
			Some(o) => o == who || self.ops.contains(&(o, who)) || self.appr.get(&id) == Some(&who),
		}
	}
	fn at(&self) -> H160 {
		erc721(self.coll)
	}
	/// What the call is to do, or None if it is to be refused outright.
	fn plan(&mut self, op: &Op) -> Option<Plan> {
		let coll = self.coll;
		let plan = |o: H160, c: RuntimeCall, logs: Vec<Log>, out: Vec<u8>| {
			Some(Plan { call: Some((signed(o), c)), logs, loose: false, out })
		};
		match op {
			Op::Move { who, from, to, id, safe } => {
				let s = small(id)?;
				if !self.may(*who, s) {
					return None;
				}
				if let (true, Some(i)) = (!matches!(safe, Safe::No), who_is(*to)) {
					if !accepts(i) {
						return None;
					}
				}
				self.appr.remove(&s);
				let l = log(self.at(), TR, &[V::A(*from), V::A(*to), n(s)], &[]);
				let c = pallet_nft::Call::transfer {
					collection_id: coll,
					serial_numbers: vec![s].try_into().unwrap(),
					new_owner: sim::at(*to),
				};
				plan(*from, c.into(), vec![l], vec![])
			},
			Op::Approve { who, to, id } => {
				let s = small(id)?;
				let o = self.owner(s)?;
				if who == to || !(o == *who || self.ops.contains(&(o, *who))) {
					return None;
				}
				self.appr.insert(s, *to);
				let l = log(self.at(), "Approval(address,address,uint256)", &[V::A(o), V::A(*to), n(s)], &[]);
				Some(Plan { call: None, logs: vec![l], loose: false, out: vec![] })
			},
			Op::ForAll { who, op, on } => {
				if who == op {
					return None;
				}
				if *on {
					self.ops.insert((*who, *op));
				} else {
					self.ops.remove(&(*who, *op));
				}
				let l = log(self.at(), "ApprovalForAll(address,address,bool)", &[V::A(*who), V::A(*op)], &[V::B(*on)]);
				Some(Plan { call: None, logs: vec![l], loose: false, out: vec![] })
			},
			Op::Burn { who, id } => {
				let s = small(id)?;
				if !self.may(*who, s) {
					return None;
				}
				let o = self.owner(s)?;
				self.appr.remove(&s);
				let l = log(self.at(), TR, &[V::A(o), V::A(H160::zero()), n(s)], &[]);
				plan(o, pallet_nft::Call::burn { token_id: (coll, s) }.into(), vec![l], vec![])
			},
			Op::Mint { who, to, count } => {
				let q = small(count)?;
				let first = pallet_nft::CollectionInfo::<Runtime>::get(coll)?.next_serial_number;
				let logs = (first..first.saturating_add(q.min(2000)))
					.map(|i| log(self.at(), TR, &[V::A(H160::zero()), V::A(*to), n(i)], &[]))
					.collect();
				let c = pallet_nft::Call::mint { collection_id: coll, quantity: q, token_owner: Some(sim::at(*to)) };
				plan(*who, c.into(), logs, vec![])
			},
			Op::Admin { who, what } => {
				let yes = enc(&[V::B(true)]);
				let a = self.at();
				let given = |x: H160| log(a, "OwnershipTransferred(address,address)", &[V::A(*who), V::A(x)], &[]);
				match what {
					Admin::MaxSupply(x) => {
						let c = pallet_nft::Call::set_max_issuance { collection_id: coll, max_issuance: small(x)? };
						plan(*who, c.into(), vec![log(a, "MaxSupplyUpdated(uint32)", &[], &[n(*x)])], vec![])
					},
					Admin::BaseUri(x) => {
						let c = pallet_nft::Call::set_base_uri { collection_id: coll, base_uri: x.clone() };
						plan(*who, c.into(), vec![log(a, "BaseURIUpdated(string)", &[], &[V::S(x.clone())])], vec![])
					},
					Admin::Give(x) => {
						let c = pallet_nft::Call::set_owner { collection_id: coll, new_owner: sim::at(*x) };
						plan(*who, c.into(), vec![given(*x)], yes)
					},
					Admin::Renounce => {
						let c = pallet_nft::Call::set_owner { collection_id: coll, new_owner: sim::at(H160::zero()) };
						plan(*who, c.into(), vec![given(H160::zero())], yes)
					},
					Admin::Public(on) => {
						let c = pallet_nft::Call::toggle_public_mint { collection_id: coll, enabled: *on };
						plan(*who, c.into(), vec![log(a, "PublicMintToggled(bool)", &[], &[V::B(*on)])], vec![])
					},
					Admin::Fee(asset, x) => {
						let id = [ROOT, XRP].into_iter().find(|i| erc20(*i) == *asset)?;
						if *x > U256::from(u128::MAX) {
							return None;
						}
						let pricing_details = (!x.is_zero()).then(|| (id, x.as_u128()));
						let c = pallet_nft::Call::set_mint_fee { collection_id: coll, pricing_details };
						plan(*who, c.into(), vec![log(a, "MintFeeUpdated(address,uint128)", &[V::A(*asset), n(*x)], &[])], vec![])
					},
					Admin::Xls20(bare) => {
						let id = if *bare { self.bare } else { coll };
						let mut l = log(erc721(id), "XLS20CompatibilityEnabled()", &[], &[]);
						l.topics.clear();
						let mut p =
							plan(*who, pallet_xls20::Call::enable_xls20_compatibility { collection_id: id }.into(), vec![l], yes)?;
						p.loose = true;
						Some(p)
					},
					Admin::Again(ids) => {
						let v: Vec<u32> = ids.iter().map(small).collect::<Option<_>>()?;
						let l = vec![log(a, "XLS20MintReRequested(uint256)", &[], &[]); v.len()];
						let c = pallet_xls20::Call::re_request_xls20_mint { collection_id: coll, serial_numbers: v.try_into().ok()? };
						let mut p = plan(*who, c.into(), l, yes)?;
						p.loose = true;
						Some(p)
					},
				}
			},
			Op::Native { .. } => unreachable!(),
		}
	}
}
fn send(m: &M, op: &Op) -> Out {
	let a = m.at();
	match op {
		Op::Move { who, from, to, id, safe } => {
			let b = vec![V::A(*from), V::A(*to), n(*id)];
			match safe {
				Safe::No => tx(*who, a, "transferFrom(address,address,uint256)", &b),
				Safe::Short => tx(*who, a, "safeTransferFrom(address,address,uint256)", &b),
				Safe::Data(d) => {
					let mut b = b;
					b.push(V::S(d.clone()));
					tx(*who, a, "safeTransferFrom(address,address,uint256,bytes)", &b)
				},
			}
		},
		Op::Approve { who, to, id } => tx(*who, a, "approve(address,uint256)", &[V::A(*to), n(*id)]),
		Op::ForAll { who, op, on } => tx(*who, a, "setApprovalForAll(address,bool)", &[V::A(*op), V::B(*on)]),
		Op::Burn { who, id } => tx(*who, a, "burn(uint256)", &[n(*id)]),
		Op::Mint { who, to, count } => tx(*who, a, "mint(address,uint32)", &[V::A(*to), n(*count)]),
		Op::Admin { who, what } => match what {
			Admin::MaxSupply(x) => tx(*who, a, "setMaxSupply(uint32)", &[n(*x)]),
			Admin::BaseUri(x) => tx(*who, a, "setBaseURI(bytes)", &[V::S(x.clone())]),
			Admin::Give(x) => tx(*who, a, "transferOwnership(address)", &[V::A(*x)]),
			Admin::Renounce => tx(*who, a, "renounceOwnership()", &[]),
			Admin::Public(on) => tx(*who, a, "togglePublicMint(bool)", &[V::B(*on)]),
			Admin::Fee(x, f) => tx(*who, a, "setMintFee(address,uint128)", &[V::A(*x), n(*f)]),
			Admin::Xls20(bare) => tx(*who, if *bare { erc721(m.bare) } else { a }, "enableXls20Compatibility()", &[]),
			Admin::Again(ids) => tx(*who, a, "reRequestXls20Mint(uint32[])", &[V::L(ids.iter().map(|x| n(*x)).collect())]),
		},
		Op::Native { .. } => unreachable!(),
	}
}
fn native(m: &mut M, who: H160, x: &Nat) -> Result<(), String> {
	use pallet_token_approvals::Call as T;
	let coll = m.coll;
	let (o, c): (RuntimeOrigin, RuntimeCall) = match x {
		Nat::Transfer(s, to) => (
			signed(who),
			pallet_nft::Call::transfer { collection_id: coll, serial_numbers: vec![*s].try_into().unwrap(), new_owner: at(*to) }.into(),
		),
		Nat::Burn(s) => (signed(who), pallet_nft::Call::burn { token_id: (coll, *s) }.into()),
		Nat::RemoveApproval(s) => (signed(who), T::erc721_remove_approval { token_id: (coll, *s) }.into()),
		Nat::Signed(k, r) => {
			let o = if *r { root() } else { signed(who) };
			let victim = at(user(0));
			let operator_account = at(who);
			let c = match k {
				0 => T::erc721_approval { caller: victim, operator_account, token_id: (coll, 0) }.into(),
				1 => T::erc721_approval_for_all { caller: victim, operator_account, collection_uuid: coll, approved: true }.into(),
				_ => T::erc1155_approval_for_all { caller: victim, operator_account, collection_uuid: coll, approved: true }.into(),
			};
			(o, c)
		},
	};
	let h0 = shim::ext::state_hash();
	let owner = match x {
		Nat::Transfer(s, _) | Nat::Burn(s) | Nat::RemoveApproval(s) => m.owner(*s),
		_ => None,
	};
	let r = dispatch(o, c);
	match (x, &r) {
		(Nat::Signed(..), Ok(_)) => return Err(format!("approved-by-others: {x:?} by {who:?}")),
		(Nat::RemoveApproval(s), Ok(_)) => {
			req!(owner == Some(who), "approval-removed-by-others: {s} by {who:?}");
			req!(m.appr.remove(s).is_some(), "approval: of {s} removed, there was none");
		},
		(Nat::RemoveApproval(s), Err(e)) => {
			req!(!(owner == Some(who) && m.appr.contains_key(s)), "approval: of {s} not removed: {e}")
		},
		(Nat::Transfer(s, _) | Nat::Burn(s), Ok(_)) => {
			m.appr.remove(s);
		},
		_ => {},
	}
	if r.is_err() {
		req!(shim::ext::state_hash() == h0, "refused-but-changed: {x:?}");
	}
	Ok(())
}
pub fn check(m: &M) -> Check {
	let v = |sig: &str, x: &[V]| view(m.at(), sig, x);
	let info = pallet_nft::CollectionInfo::<Runtime>::get(m.coll).ok_or("collection: gone")?;
	let all: Vec<H160> = (0..PEOPLE).map(user).chain((0..RECEIVERS.len()).map(receiver)).collect();
	let mut owned: BTreeMap<H160, Vec<u32>> = BTreeMap::new();
	for s in 0..info.next_serial_number + 3 {
		let o = m.owner(s);
		let got = v("ownerOf(uint256)", &[n(s)]);
		match o {
			Some(o) => {
				owned.entry(o).or_default().push(s);
				req!(got == Ok(enc(&[V::A(o)])), "view: ownerOf({s}) is {got:?} - not {o:?}");
			},
			None => req!(got.is_err(), "view: ownerOf({s}) is {got:?}, there is no such token"),
		}
		let a = m.appr.get(&s).cloned().unwrap_or_default();
		let got = v("getApproved(uint256)", &[n(s)]);
		req!(got == Ok(enc(&[V::A(a)])), "approved: of {s} is {got:?} - not {a:?}");
		let got = v("tokenURI(uint256)", &[n(s)]);
		let uri = Nft::token_uri((m.coll, s));
		req!(got == Ok(enc(&[V::S(uri.clone())])), "view: tokenURI({s}) is {got:?} - not {uri:?}");
	}
	for x in ["ownerOf(uint256)", "getApproved(uint256)", "tokenURI(uint256)"] {
		req!(v(x, &[n(U256::from(1u64 << 32))]).is_err(), "view: {x} of 2^32 answered");
	}
	for a in all.iter() {
		let l = owned.get(a).cloned().unwrap_or_default();
		let got = v("balanceOf(address)", &[V::A(*a)]);
		req!(got == Ok(enc(&[n(l.len() as u64)])), "view: balanceOf({a:?}) is {got:?}, it owns {l:?}");
		for b in all.iter() {
			let w = m.ops.contains(&(*a, *b));
			let got = v("isApprovedForAll(address,address)", &[V::A(*a), V::A(*b)]);
			req!(got == Ok(enc(&[V::B(w)])), "operator: {b:?} of {a:?} is {got:?} - not {w}");
		}
	}
	for a in all.iter().take(PEOPLE) {
		let l = owned.get(a).cloned().unwrap_or_default();
		for (limit, cursor) in [(0u32, 0u32), (1, 0), (2, 1), (5, 0), (1, 3), (3, u32::MAX)] {
			let page: Vec<u32> = l.iter().filter(|x| **x >= cursor).take(limit as usize).cloned().collect();
			let next = match (page.last(), l.last()) {
				(Some(x), Some(y)) if x != y => x + 1,
				_ => 0,
			};
			let w = enc(&[n(next), n(l.len() as u64), V::L(page.iter().map(|x| n(*x)).collect())]);
			let got = v("ownedTokens(address,uint16,uint32)", &[V::A(*a), n(limit), n(cursor)]);
			req!(got == Ok(w), "view: ownedTokens({a:?},{limit},{cursor}) is {got:?}, it owns {l:?}");
		}
	}
	let o: H160 = info.owner.into();
	req!(v("owner()", &[]) == Ok(enc(&[V::A(o)])), "view: owner is {:?} - not {o:?}", v("owner()", &[]));
	let t: usize = owned.values().map(|l| l.len()).sum();
	req!(info.collection_issuance as usize == t, "supply: {} - {t} exist", info.collection_issuance);
	req!(v("totalSupply()", &[]) == Ok(enc(&[n(t as u64)])), "view: totalSupply {:?} - not {t}", v("totalSupply()", &[]));
	for x in ["name()", "symbol()"] {
		req!(v(x, &[]) == Ok(enc(&[V::S(info.name.to_vec())])), "view: {x} {:?}", v(x, &[]));
	}
	Ok(())
}
fn step(m: &mut M, op: &Op) -> Step {
	if let Op::Native { who, what } = op {
		native(m, *who, what)?;
		check(m)?;
		return Ok(kind(what));
	}
	let h0 = shim::ext::state_hash();
	let before = m.clone();
	let back = match op {
		Op::Move { to, id, .. } => Some((m.at(), input("transferFrom(address,address,uint256)", &[V::A(*to), V::A(user(0)), n(*id)]))),
		_ => None,
	};
	arm(magic(RCV), back);
	let plan = m.plan(op);
	// the same through the pallet
	let want = match &plan {
		None => None,
		Some(Plan { call: None, .. }) => Some(None),
		Some(Plan { call: Some((o, c)), .. }) => peek(|| dispatch(o.clone(), c.clone()).ok().map(|_| Some(shim::ext::state_hash()))),
	};
	let o = send(m, op);
	let q = asked();
	match (&want, o.ok()) {
		(None, true) => return Err(format!("accepted: {op:?}")),
		(Some(_), false) => return Err(format!("refused: {op:?} - {:?}", o.reason)),
		_ => {},
	}
	if let (Some(w), Some(p)) = (&want, &plan) {
		if let Some(w) = w {
			req!(shim::ext::state_hash() == *w, "effect: {op:?} does not do what the pallet's call does");
		}
		let got = o.plain();
		if p.loose {
			req!(
				got.len() == p.logs.len() && got.iter().zip(&p.logs).all(|(a, b)| a.address == b.address && a.topics.first().is_some() == a.topics.first().is_some()),
				"logs: {op:?} wrote {got:?}"
			);
		} else {
			req!(got == p.logs, "logs: {op:?} wrote {got:?} - not {:?}", p.logs);
		}
		req!(o.out == p.out, "output: {op:?} answered {:?} - not {:?}", o.out, p.out);
		// receivers are asked once, after the transfer, by the collection
		let ask = match op {
			Op::Move { safe: Safe::No, .. } => None,
			Op::Move { who, from, to, id, safe } if who_is(*to).is_some() => {
				let d = if let Safe::Data(d) = safe { d.clone() } else { vec![] };
				Some(Asked {
					who: *to,
					sender: m.at(),
					value: U256::zero(),
					input: input(RCV, &[V::A(*who), V::A(*from), n(*id), V::S(d)]),
					is_static: false,
					logs_state: w.unwrap(),
				})
			},
			_ => None,
		};
		match ask {
			None => req!(q.is_empty(), "receiver: asked by {op:?}"),
			Some(a) => {
				req!(q.len() == 1, "receiver: asked {} times by {op:?}", q.len());
				req!(q[0].input == a.input, "receiver: asked with {:?} by {op:?} - not {:?}", q[0].input, a.input);
				req!(q[0].sender == a.sender, "receiver: asked by {:?} - not by the collection", q[0].sender);
				req!(q[0].logs_state == a.logs_state, "receiver: asked before it has the token");
				req!(q[0] == a, "receiver: asked as {:?} - not {a:?}", q[0]);
			},
		}
	} else {
		*m = before;
		req!(shim::ext::state_hash() == h0, "refused-but-changed: {op:?}");
		req!(o.logs.is_empty(), "refused-but-logged: {op:?}");
	}
	check(m)?;
	Ok(format!("{} {}", kind(op), if want.is_some() { "done" } else { "refused" }))
}
pub fn create(owner: H160, name: &str, initial: u32, max: Option<u32>) -> u32 {
	let known: BTreeSet<u32> = pallet_nft::CollectionInfo::<Runtime>::iter().map(|x| x.0).collect();
	let c = pallet_nft::Call::create_collection {
		name: name.as_bytes().to_vec().try_into().unwrap(),
		initial_issuance: initial,
		max_issuance: max,
		token_owner: Some(at(user(0))),
		metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://a.b/".as_slice()).unwrap(),
		royalties_schedule: None,
		cross_chain_compatibility: Default::default(),
	};
	dispatch(signed(owner), c).unwrap();
	pallet_nft::CollectionInfo::<Runtime>::iter().map(|x| x.0).find(|x| !known.contains(x)).unwrap()
}
pub struct S {
	pub part: u8,
	pub rich: bool,
}
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		3
	}
	fn init(&self, i: usize) -> M {
		genesis(PEOPLE, 1000);
		deploy();
		let _ = h(0).encode();
		let coll = create(user(0), "A collection of more than 32 bytes, 'quoted'", 2, if i == 1 { Some(4) } else { None });
		let bare = create(user(0), "bare", 0, None);
		let mut m = M { coll, bare, ..Default::default() };
		let mut go = |op: Op| {
			let r = step(&mut m, &op);
			assert!(r.as_ref().map(|x| !x.contains("refused")).unwrap_or(true), "setting up: {op:?} {r:?}");
		};
		if i == 1 {
			go(Op::Approve { who: user(0), to: user(1), id: 0.into() });
			go(Op::ForAll { who: user(0), op: user(2), on: true });
			go(Op::Approve { who: user(0), to: user(1), id: 1.into() });
			go(Op::Admin { who: user(0), what: Admin::Public(true) });
			go(Op::Admin { who: user(0), what: Admin::Fee(erc20(XRP), 7.into()) });
		}
		if i == 2 {
			go(Op::Move { who: user(0), from: user(0), to: user(1), id: 1.into(), safe: Safe::Short });
			go(Op::ForAll { who: user(1), op: user(0), on: true });
			go(Op::ForAll { who: user(1), op: user(2), on: true });
			go(Op::Approve { who: user(1), to: user(2), id: 1.into() });
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut v = vec![];
		let r = self.rich;
		let big = U256::from(1u64 << 32);
		let people: Vec<H160> = (0..PEOPLE).map(user).collect();
		if self.part == 0 {
			for &who in &people {
				for id in 0..if r { 3 } else { 2 } {
					let o = m.owner(id);
					for &to in &people {
						for &from in &people {
							if !r && Some(from) != o && from != who {
								continue;
							}
							v.push(Op::Move { who, from, to, id: id.into(), safe: Safe::No });
							if r || Some(from) == o {
								v.push(Op::Move { who, from, to, id: id.into(), safe: Safe::Short });
							}
						}
						v.push(Op::Approve { who, to, id: id.into() });
					}
					v.push(Op::Approve { who, to: H160::zero(), id: id.into() });
					v.push(Op::Burn { who, id: id.into() });
					v.push(Op::Native { who, what: Nat::RemoveApproval(id) });
					v.push(Op::Native { who, what: Nat::Burn(id) });
					v.push(Op::Native { who, what: Nat::Transfer(id, user(1)) });
				}
				for &op in &people {
					v.push(Op::ForAll { who, op, on: true });
					v.push(Op::ForAll { who, op, on: false });
				}
			}
			for id in [big, big + 1, U256::MAX] {
				let who = user(0);
				v.push(Op::Move { who, from: who, to: user(1), id, safe: Safe::No });
				v.push(Op::Move { who, from: who, to: user(1), id, safe: Safe::Data(vec![1]) });
				v.push(Op::Approve { who, to: user(1), id });
				v.push(Op::Burn { who, id });
			}
			for k in 0..3 {
				v.push(Op::Native { who: user(1), what: Nat::Signed(k, false) });
				v.push(Op::Native { who: user(1), what: Nat::Signed(k, true) });
			}
		} else if self.part == 1 {
			for &who in &people {
				for i in 0..RECEIVERS.len() {
					let d: Vec<Safe> = if r { vec![Safe::No, Safe::Short, Safe::Data(vec![]), Safe::Data(vec![9; 70])] } else { vec![Safe::Short, Safe::Data(vec![9; 33])] };
					for safe in d {
						for id in 0..2u32 {
							let Some(from) = m.owner(id) else { continue };
							v.push(Op::Move { who, from, to: receiver(i), id: id.into(), safe: safe.clone() });
							v.push(Op::Move { who, from: who, to: receiver(i), id: id.into(), safe: safe.clone() });
						}
					}
				}
				v.push(Op::Approve { who, to: receiver(5), id: 0.into() });
				v.push(Op::Move { who: receiver(0), from: receiver(0), to: who, id: 0.into(), safe: Safe::Short });
			}
		} else {
			for &who in people.iter().take(2) {
				for count in [0u32, 1, 2, 12, 1001] {
					v.push(Op::Mint { who, to: user(2), count: count.into() });
				}
				v.push(Op::Mint { who, to: who, count: big });
				v.push(Op::Mint { who, to: who, count: big + 1 });
				for x in [0u32, 1, 4, u32::MAX] {
					v.push(Op::Admin { who, what: Admin::MaxSupply(x.into()) });
				}
				v.push(Op::Admin { who, what: Admin::MaxSupply(big + 9) });
				for x in [&b""[..], b"ipfs://x", &[b'a'; 33], &[b'a'; 300]] {
					v.push(Op::Admin { who, what: Admin::BaseUri(x.to_vec()) });
				}
				for &x in &people {
					v.push(Op::Admin { who, what: Admin::Give(x) });
				}
				v.push(Op::Admin { who, what: Admin::Renounce });
				for on in [true, false] {
					v.push(Op::Admin { who, what: Admin::Public(on) });
					v.push(Op::Admin { who, what: Admin::Xls20(on) });
				}
				for (a, x) in [
					(erc20(XRP), U256::zero()),
					(erc20(XRP), U256::from(3)),
					(erc20(ROOT), U256::from(u128::MAX)),
					(erc20(ROOT), U256::from(u128::MAX) + 5),
					(erc721(ROOT), U256::from(3)),
					(user(1), U256::from(3)),
				] {
					v.push(Op::Admin { who, what: Admin::Fee(a, x) });
				}
				for l in [vec![], vec![0u64], vec![0, 3], vec![1, 0], vec![1 << 32], vec![0; 1000], vec![0; 1001]] {
					v.push(Op::Admin { who, what: Admin::Again(l.into_iter().map(U256::from).collect()) });
				}
				v.push(Op::Burn { who, id: 0.into() });
			}
		}
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		step(m, op)
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)
	}
}
pub fn run(ctx: &mut Ctx) {
	let rich = ctx.thorough();
	let _ = H256::zero();
	ctx.assume("gas is not exhausted; receiving contracts are scripted (no bytecode is interpreted)");
	ctx.bfs("approvals", &S { part: 0, rich }, depth(ctx.pick(2, 3)));
	ctx.bfs("receivers", &S { part: 1, rich }, depth(ctx.pick(2, 3)));
	ctx.bfs("collection", &S { part: 2, rich }, depth(ctx.pick(2, 3)));
}
