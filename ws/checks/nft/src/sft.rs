//! Lock-step exploration of the SFT pallet.
use crate::rt::*;
use explore::*;
use frame_support::traits::fungibles::{Inspect, Mutate};
use seed_pallet_common::utils::{CollectionUtilityFlags, PublicMintInformation};
use seed_pallet_common::*;
use seed_primitives::RoyaltiesSchedule;
use std::collections::{BTreeMap, BTreeSet};

const N: usize = 6; // 0 alice (owner) 1 bob 2 carol 3 4 5 further holders
const OWNERS: usize = 4; // holders per token in this runtime
const LIST: usize = 3; // entries per call
fn acc(i: usize) -> AccountId {
	create_account(30 + i as u64)
}
const PAY: AssetId = 7;
const PRICE: u128 = 10;
type Tok = (u32, u32);
fn cid(n: u32) -> u32 {
	(n << 10) | 100
}
#[derive(Clone, Hash, Debug)]
struct T {
	max: Option<u128>,
	bal: BTreeMap<usize, (u128, u128)>, // free, reserved
}
impl T {
	fn supply(&self) -> Option<u128> {
		self.bal.values().try_fold(0u128, |a, b| a.checked_add(b.0)?.checked_add(b.1))
	}
	fn add(&mut self, who: usize, q: u128) -> Option<()> {
		if !self.bal.contains_key(&who) && self.bal.len() == OWNERS {
			return None;
		}
		self.bal.entry(who).or_default().0 += q;
		Some(())
	}
	fn sub(&mut self, who: usize, q: u128) -> Option<()> {
		let b = self.bal.get_mut(&who)?;
		b.0 = b.0.checked_sub(q)?;
		if *b == (0, 0) {
			self.bal.remove(&who);
		}
		Some(())
	}
}
#[derive(Clone, Hash, Debug)]
struct Col {
	owner: usize,
	flags: (bool, bool, bool), // transferable, burnable, mintable
	name: u8,
	uri: u8,
	roy: usize,
	next: u32,
}
#[derive(Clone, Hash, Debug)]
pub struct M {
	cols: BTreeMap<u32, Col>,
	created: u32,
	toks: BTreeMap<Tok, T>,
	public: BTreeMap<Tok, (bool, Option<u128>)>,
	pay: [u128; N],
	all: BTreeSet<(usize, u32, usize)>,
}
type L = Vec<(u32, u128)>;
#[derive(Clone, Debug)]
enum Op {
	CreateCol { who: usize, owner: Option<usize>, name: u8, roy: usize },
	Create { who: usize, col: u32, name: u8, initial: u128, max: Option<u128>, to: Option<usize> },
	Mint { who: usize, col: u32, list: L, to: Option<usize> },
	Transfer { who: usize, col: u32, list: L, to: usize },
	Burn { who: usize, col: u32, list: L },
	Reserve { who: usize, tok: Tok, q: u128 },
	Free { who: usize, tok: Tok, q: u128 },
	SetOwner { who: usize, col: u32, new: usize },
	SetMax { who: usize, tok: Tok, max: u128 },
	SetUri { who: usize, col: u32, uri: u8 },
	SetName { who: usize, col: u32, name: u8 },
	SetRoy { who: usize, col: u32, roy: usize },
	Toggle { who: usize, tok: Tok, on: bool },
	Price { who: usize, tok: Tok, price: Option<u128> },
	SetFlags { who: usize, col: u32, flags: (bool, bool, bool) },
	ApproveAll { none: bool, caller: usize, op: usize, col: u32, on: bool },
}
/// 0 none, 1 25%, 2 exactly 100%, 3 just over, 4 empty, 5 too many, 6 most allowed
fn roy(i: usize) -> Option<RoyaltiesSchedule<AccountId>> {
	let l: Vec<u32> = match i {
		0 => return None,
		1 => vec![250_000],
		2 => vec![400_000, 600_000],
		3 => vec![400_000, 600_001],
		4 => vec![],
		5 => vec![1; 7],
		_ => vec![1; 6],
	};
	Some(RoyaltiesSchedule { entitlements: BoundedVec::truncate_from(l.into_iter().enumerate().map(|(k, p)| (create_account(90 + k as u64), Permill::from_parts(p))).collect()) })
}
fn roy_ok(i: usize) -> bool {
	matches!(i, 0 | 1 | 2 | 6)
}
/// name 0 is empty, 255 is not UTF-8
fn name(i: u8) -> Vec<u8> {
	match i {
		0 => vec![],
		i => vec![i; 3],
	}
}
fn name_ok(i: u8) -> bool {
	i > 0 && i < 128
}
impl M {
	fn own(&mut self, who: usize, col: u32) -> Option<&mut Col> {
		self.cols.get_mut(&col).filter(|c| c.owner == who)
	}
	fn apply(&mut self, op: &Op) -> Option<()> {
		match op {
			Op::CreateCol { who, owner, name, roy } => {
				if !name_ok(*name) || !roy_ok(*roy) {
					return None;
				}
				self.created += 1;
				self.cols.insert(cid(self.created), Col { owner: owner.unwrap_or(*who), flags: (true, true, true), name: *name, uri: 1, roy: *roy, next: 0 });
			},
			Op::Create { who, col, name, initial, max, to } => {
				let c = self.own(*who, *col)?;
				if !name_ok(*name) || max.map_or(false, |m| m == 0 || *initial > m) {
					return None;
				}
				let t = (*col, c.next);
				c.next += 1;
				let mut bal = BTreeMap::new();
				if *initial > 0 {
					bal.insert(to.unwrap_or(*who), (*initial, 0));
				}
				self.toks.insert(t, T { max: *max, bal });
			},
			Op::Mint { who, col, list, to } => {
				let c = self.cols.get(col)?.clone();
				if list.is_empty() || !c.flags.2 {
					return None;
				}
				for (s, q) in list {
					let (on, price) = self.public.get(&(*col, *s)).cloned().unwrap_or_default();
					if *q == 0 || (c.owner != *who && !on) {
						return None;
					}
					let t = self.toks.get_mut(&(*col, *s))?;
					if c.owner != *who {
						if let Some(p) = price {
							let f = p.saturating_mul(*q);
							self.pay[*who] = self.pay[*who].checked_sub(f)?;
							self.pay[c.owner] += f;
						}
					}
					let n = t.supply()?.checked_add(*q)?;
					if t.max.map_or(false, |m| n > m) {
						return None;
					}
					t.add(to.unwrap_or(*who), *q)?;
				}
			},
			Op::Transfer { who, col, list, to } => {
				let f = self.cols.get(col)?.flags.0;
				if list.is_empty() || who == to || !f {
					return None;
				}
				for (s, q) in list {
					let t = self.toks.get_mut(&(*col, *s))?;
					if *q == 0 {
						return None;
					}
					t.sub(*who, *q)?;
					t.add(*to, *q)?;
				}
			},
			Op::Burn { who, col, list } => {
				let f = self.cols.get(col)?.flags.1;
				if list.is_empty() || !f {
					return None;
				}
				for (s, q) in list {
					if *q == 0 {
						return None;
					}
					self.toks.get_mut(&(*col, *s))?.sub(*who, *q)?;
				}
			},
			Op::Reserve { who, tok, q } => {
				let b = self.toks.get_mut(tok)?.bal.get_mut(who)?;
				b.0 = b.0.checked_sub(*q)?;
				b.1 += q;
			},
			Op::Free { who, tok, q } => {
				let b = self.toks.get_mut(tok)?.bal.get_mut(who)?;
				b.1 = b.1.checked_sub(*q)?;
				b.0 += q;
			},
			Op::SetOwner { who, col, new } => self.own(*who, *col)?.owner = *new,
			Op::SetMax { who, tok, max } => {
				self.own(*who, tok.0)?;
				let t = self.toks.get_mut(tok)?;
				if *max == 0 || t.max.is_some() || t.supply()? > *max {
					return None;
				}
				t.max = Some(*max);
			},
			Op::SetUri { who, col, uri } => self.own(*who, *col)?.uri = *uri,
			Op::SetName { who, col, name } => {
				let c = self.own(*who, *col)?;
				name_ok(*name).then_some(())?;
				c.name = *name;
			},
			Op::SetRoy { who, col, roy } => {
				let c = self.own(*who, *col)?;
				roy_ok(*roy).then_some(())?;
				c.roy = *roy;
			},
			Op::Toggle { who, tok, on } => {
				self.own(*who, tok.0)?;
				self.public.entry(*tok).or_default().0 = *on;
			},
			Op::Price { who, tok, price } => {
				self.own(*who, tok.0)?;
				self.public.entry(*tok).or_default().1 = *price;
			},
			Op::SetFlags { who, col, flags } => self.own(*who, *col)?.flags = *flags,
			Op::ApproveAll { none, caller, op, col, on } => {
				if !none || caller == op {
					return None;
				}
				if *on {
					self.all.insert((*caller, *col, *op));
				} else {
					self.all.remove(&(*caller, *col, *op));
				}
			},
		}
		self.public.retain(|_, v| *v != (false, None));
		Some(())
	}
}
fn uri(i: u8) -> MetadataScheme {
	MetadataScheme::try_from([b"https://".as_slice(), &[b'a' + i, b'/']].concat().as_slice()).unwrap()
}
fn exec(op: &Op) -> Result<(), String> {
	let s = |w: &usize| RuntimeOrigin::signed(acc(*w));
	let nm = |n: &u8| BoundedVec::truncate_from(name(*n));
	let l = |v: &L| BoundedVec::truncate_from(v.clone());
	call(|| match op {
		Op::CreateCol { who, owner, name, roy: r } => Sft::create_collection(s(who), nm(name), owner.map(acc), uri(1), roy(*r)),
		Op::Create { who, col, name, initial, max, to } => Sft::create_token(s(who), *col, nm(name), *initial, *max, to.map(acc)),
		Op::Mint { who, col, list, to } => Sft::mint(s(who), *col, l(list), to.map(acc)),
		Op::Transfer { who, col, list, to } => Sft::transfer(s(who), *col, l(list), acc(*to)),
		Op::Burn { who, col, list } => Sft::burn(s(who), *col, l(list)),
		Op::Reserve { who, tok, q } => <Sft as SFTExt>::reserve_balance(*tok, *q, &acc(*who)),
		Op::Free { who, tok, q } => <Sft as SFTExt>::free_reserved_balance(*tok, *q, &acc(*who)),
		Op::SetOwner { who, col, new } => Sft::set_owner(s(who), *col, acc(*new)),
		Op::SetMax { who, tok, max } => Sft::set_max_issuance(s(who), *tok, *max),
		Op::SetUri { who, col, uri: u } => Sft::set_base_uri(s(who), *col, uri(*u)),
		Op::SetName { who, col, name } => Sft::set_name(s(who), *col, nm(name)),
		Op::SetRoy { who, col, roy: r } => Sft::set_royalties_schedule(s(who), *col, roy(*r).unwrap()),
		Op::Toggle { who, tok, on } => Sft::toggle_public_mint(s(who), *tok, *on),
		Op::Price { who, tok, price } => Sft::set_mint_fee(s(who), *tok, price.map(|p| (PAY, p))),
		Op::SetFlags { who, col, flags } => Sft::set_utility_flags(s(who), *col, CollectionUtilityFlags { transferable: flags.0, burnable: flags.1, mintable: flags.2 }),
		Op::ApproveAll { none, caller, op, col, on } => Approvals::erc1155_approval_for_all(if *none { RuntimeOrigin::none() } else { s(caller) }, acc(*caller), acc(*op), *col, *on),
	})
}
fn check(m: &M) -> Check {
	for n in 1..m.created + 2 {
		let id = cid(n);
		let got = pallet_sft::SftCollectionInfo::<Test>::get(id);
		let Some(c) = m.cols.get(&id) else {
			req!(got.is_none() && !Sft::collection_exists(id), "collections: {id} appeared from nowhere");
			continue;
		};
		let g = got.ok_or(format!("collections: {id} is gone"))?;
		req!(g.collection_owner == acc(c.owner) && Sft::get_collection_owner(id) == Some(acc(c.owner)), "collection owner: of {id} is not {}", c.owner);
		req!(g.collection_name.to_vec() == name(c.name) && g.metadata_scheme == uri(c.uri) && g.royalties_schedule == roy(c.roy), "collection: attributes of {id} differ from what its owner set");
		req!(g.next_serial_number == c.next, "serials: next serial of {id} is {}, expected {}", g.next_serial_number, c.next);
		let f = pallet_sft::UtilityFlags::<Test>::get(id);
		req!((f.transferable, f.burnable, f.mintable) == c.flags, "utility flags: of {id} are {f:?}");
		for s in 0..5 {
			let t = (id, s);
			let want = m.toks.get(&t);
			req!(Sft::token_exists(t) == want.is_some(), "tokens: {t:?} exists {}", want.is_none());
			req!(Sft::token_uri(t) == [uri(c.uri).0.to_vec(), s.to_string().into_bytes()].concat(), "token URI: of {t:?}");
			let p = pallet_sft::PublicMintInfo::<Test>::get(t).unwrap_or_default();
			let w = m.public.get(&t).cloned().unwrap_or_default();
			req!(p == PublicMintInformation { enabled: w.0, pricing_details: w.1.map(|p| (PAY, p)) }, "public mint: of {t:?} is {p:?}");
			let info = pallet_sft::TokenInfo::<Test>::get(t);
			let supply = want.map_or(0, |x| x.supply().unwrap());
			req!(Sft::total_supply(t) == supply, "supply: of {t:?} is {}, its holders own {supply}", Sft::total_supply(t));
			if let (Some(i), Some(w)) = (&info, want) {
				req!(i.max_issuance == w.max, "max issuance: of {t:?} is {:?}, expected {:?}", i.max_issuance, w.max);
				req!(w.max.map_or(true, |m| supply <= m), "max issuance: of {t:?} exceeded");
				req!(i.owned_tokens.len() <= OWNERS, "holders: {t:?} has {}", i.owned_tokens.len());
				req!(i.owned_tokens.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() == i.owned_tokens.len(), "holders: an account is listed twice for {t:?}");
			}
			for a in 0..N {
				let w = want.and_then(|x| x.bal.get(&a)).cloned().unwrap_or_default();
				let g = info.as_ref().and_then(|i| i.owned_tokens.iter().find(|x| x.0 == acc(a)).map(|x| (x.1.free_balance, x.1.reserved_balance))).unwrap_or_default();
				req!(g == w && Sft::balance_of(&acc(a), t) == w.0, "balance: of account {a} in {t:?} is {g:?} (free, reserved), expected {w:?}");
			}
		}
		for a in 0..3 {
			for b in 0..3 {
				let g = pallet_token_approvals::ERC1155ApprovalsForAll::<Test>::get(acc(a), (id, acc(b))).unwrap_or(false);
				req!(g == m.all.contains(&(a, id, b)), "approvals: operator {b} of {a} in {id}: {g}");
			}
		}
	}
	for a in 0..N {
		let b = AssetsExt::balance(PAY, &acc(a));
		req!(b == m.pay[a], "payment: account {a} has {b}, expected {}", m.pay[a]);
	}
	Ok(())
}
#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Balances,
	Mint,
	Admin,
}
enum Size {
	Lean,
	Rich,
	/// every combination of the arguments of every operation
	Product,
}
struct S(Focus, Size);
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		if matches!(self.1, Size::Product) {
			5
		} else {
			3
		}
	}
	fn init(&self, i: usize) -> M {
		System::set_block_number(1);
		pallet_nft::NextCollectionId::<Test>::put(1);
		Assets::force_create(RuntimeOrigin::root(), PAY, acc(0), true, 1).unwrap();
		let mut m = M { cols: Default::default(), created: 0, toks: Default::default(), public: Default::default(), pay: [5, 100, 39, 0, 0, 0], all: Default::default() };
		for a in 0..3 {
			AssetsExt::mint_into(PAY, &acc(a), m.pay[a]).unwrap();
		}
		let mut run = |op: Op| {
			m.apply(&op).expect("setup refused by the reference");
			exec(&op).expect("setup");
		};
		let c = cid(1);
		run(Op::CreateCol { who: 0, owner: None, name: 1, roy: 1 });
		run(Op::Create { who: 0, col: c, name: 2, initial: 5, max: Some(8), to: Some(1) });
		run(Op::Create { who: 0, col: c, name: 3, initial: 0, max: None, to: None });
		if i == 1 {
			run(Op::Toggle { who: 0, tok: (c, 0), on: true });
			run(Op::Price { who: 0, tok: (c, 0), price: Some(PRICE) });
			run(Op::Toggle { who: 0, tok: (c, 1), on: true });
			run(Op::Reserve { who: 1, tok: (c, 0), q: 2 });
			run(Op::Transfer { who: 1, col: c, list: vec![(0, 1)], to: 2 });
		}
		if i == 2 {
			run(Op::Mint { who: 0, col: c, list: vec![(1, u128::MAX - 4)], to: Some(1) });
			run(Op::Transfer { who: 1, col: c, list: vec![(1, 1), (0, 1)], to: 3 });
			run(Op::Transfer { who: 1, col: c, list: vec![(1, 1), (0, 1)], to: 4 });
			run(Op::Transfer { who: 1, col: c, list: vec![(1, 1), (0, 1)], to: 2 });
			run(Op::Reserve { who: 2, tok: (c, 0), q: 1 });
		}
		if i >= 3 {
			// two collections, each person holds some of each token, one collection is restricted
			for (s, to) in [(0, 0), (0, 2), (1, 0), (1, 1), (1, 2)] {
				run(Op::Mint { who: 0, col: c, list: vec![(s, 1)], to: Some(to) });
			}
			let d = cid(2);
			run(Op::CreateCol { who: 1, owner: Some(2), name: 3, roy: 0 });
			run(Op::Create { who: 2, col: d, name: 3, initial: 5, max: None, to: Some(1) });
			run(Op::Create { who: 2, col: d, name: 3, initial: 3, max: Some(3), to: None });
			run(Op::Toggle { who: 2, tok: (d, 0), on: true });
			run(Op::Price { who: 2, tok: (d, 0), price: Some(3) });
			run(Op::Mint { who: 1, col: d, list: vec![(0, 1)], to: Some(0) });
			run(Op::Transfer { who: 2, col: d, list: vec![(1, 1)], to: 0 });
			run(Op::ApproveAll { none: true, caller: 1, op: 0, col: d, on: true });
			if i == 4 {
				run(Op::SetFlags { who: 0, col: c, flags: (true, false, true) });
				run(Op::SetFlags { who: 2, col: d, flags: (false, true, false) });
			}
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let f = self.0;
		let rich = match self.1 {
			Size::Lean => false,
			Size::Rich => true,
			Size::Product => return product(m),
		};
		let mut v = vec![];
		let mut cols: Vec<u32> = m.cols.keys().cloned().collect();
		cols.push(cid(40));
		let lists: Vec<L> = vec![vec![], vec![(0, 0)], vec![(0, 1)], vec![(0, 2), (1, 1)], vec![(0, 1), (0, 2)], vec![(1, 1), (4, 1)], vec![(1, 3), (0, 0)], vec![(0, 3)], vec![(0, 4)], vec![(1, u128::MAX)]];
		for &col in &cols {
			let real = col != cid(40);
			let o = m.cols.get(&col).map_or(0, |c| c.owner);
			if f == Focus::Balances || rich {
				for list in &lists {
					for who in 0..3 {
						for to in [1, 2, 5] {
							if real || to == 5 {
								v.push(Op::Transfer { who, col, list: list.clone(), to });
							}
						}
						v.push(Op::Burn { who, col, list: list.clone() });
					}
					v.push(Op::Mint { who: o, col, list: list.clone(), to: Some(2) });
				}
				for who in 1..4 {
					for q in [0, 1, 2, 5] {
						v.push(Op::Reserve { who, tok: (col, 0), q });
						v.push(Op::Free { who, tok: (col, 0), q });
					}
				}
				v.push(Op::Reserve { who: 1, tok: (col, 1), q: u128::MAX - 7 });
				v.push(Op::Free { who: 1, tok: (col, 1), q: 1 });
				for flags in [(false, true, true), (true, false, true), (true, true, true)] {
					v.push(Op::SetFlags { who: o, col, flags });
				}
			}
			if f == Focus::Mint || rich {
				for who in 0..3 {
					for list in &lists {
						for to in [None, Some(2), Some(5)] {
							v.push(Op::Mint { who, col, list: list.clone(), to });
						}
					}
					v.push(Op::Mint { who, col, list: vec![(1, u128::MAX / 2)], to: None });
					for (initial, max) in [(0, None), (3, Some(3)), (4, Some(3)), (0, Some(0)), (u128::MAX, None), (0, Some(2))] {
						if m.cols.get(&col).map_or(true, |c| c.next < 4) {
							v.push(Op::Create { who, col, name: 1, initial, max, to: (initial == 3).then_some(2) });
						}
					}
				}
				for name in [0, 200] {
					v.push(Op::Create { who: o, col, name, initial: 1, max: None, to: None });
				}
				for s in [0, 1, 4] {
					for on in [true, false] {
						v.push(Op::Toggle { who: o, tok: (col, s), on });
					}
					for price in [None, Some(1), Some(PRICE), Some(u128::MAX / 2)] {
						v.push(Op::Price { who: o, tok: (col, s), price });
					}
					for max in [0, 1, 5, 8, u128::MAX] {
						v.push(Op::SetMax { who: o, tok: (col, s), max });
					}
				}
				for flags in [(true, true, false), (true, true, true)] {
					v.push(Op::SetFlags { who: o, col, flags });
				}
				v.push(Op::Burn { who: 1, col, list: vec![(0, 2)] });
				v.push(Op::SetOwner { who: o, col, new: 1 });
			}
			if f == Focus::Admin || rich {
				for who in 0..3 {
					for new in [1, 2] {
						v.push(Op::SetOwner { who, col, new });
					}
					v.push(Op::SetMax { who, tok: (col, 1), max: 9 });
					v.push(Op::SetUri { who, col, uri: 2 });
					v.push(Op::SetName { who, col, name: 9 });
					v.push(Op::SetRoy { who, col, roy: 2 });
					v.push(Op::Toggle { who, tok: (col, 1), on: true });
					v.push(Op::Price { who, tok: (col, 0), price: Some(3) });
					v.push(Op::SetFlags { who, col, flags: (false, false, false) });
					v.push(Op::Create { who, col, name: 5, initial: 1, max: None, to: None });
					for b in 0..3 {
						v.push(Op::ApproveAll { none: true, caller: who, op: b, col, on: true });
					}
					v.push(Op::ApproveAll { none: true, caller: who, op: (who + 1) % 3, col, on: false });
					v.push(Op::ApproveAll { none: false, caller: who, op: (who + 1) % 3, col, on: true });
				}
				for roy in [1, 3, 4, 5, 6] {
					v.push(Op::SetRoy { who: o, col, roy });
				}
				for name in [0, 200] {
					v.push(Op::SetName { who: o, col, name });
				}
				v.push(Op::SetMax { who: o, tok: (col, 4), max: 9 });
			}
		}
		if (f == Focus::Admin || rich) && m.created < 3 {
			for roy in 0..7 {
				v.push(Op::CreateCol { who: 1, owner: (roy == 1).then_some(2), name: 4, roy });
			}
			for name in [0, 200] {
				v.push(Op::CreateCol { who: 1, owner: None, name, roy: 0 });
			}
		}
		// lists longer than a call may carry cannot be expressed
		v.retain(|o| !matches!(o, Op::Mint { list, .. } | Op::Transfer { list, .. } | Op::Burn { list, .. } if list.len() > LIST));
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let h = shim::ext::state_hash();
		let mut want = m.clone();
		let ok = want.apply(op).is_some();
		let r = exec(op);
		let kind = format!("{op:?}").split([' ', '{']).next().unwrap().to_string();
		if let Err(e) = &r {
			req!(shim::ext::state_hash() == h, "atomicity: refused {kind} ({e}) changed the state");
		}
		match (&r, ok) {
			(Ok(()), false) => return Err(format!("admission: {kind} was accepted but must be refused")),
			(Err(e), true) => return Err(format!("admission: {kind} was refused with {e} but must succeed")),
			(Ok(()), true) => *m = want,
			_ => {},
		}
		if r.is_ok() {
			check(m)?;
		}
		Ok(format!("{kind}: {}", r.err().unwrap_or("ok".into())))
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)
	}
}
fn product(m: &M) -> Vec<Op> {
	let mut v = vec![];
	let mut cols: Vec<u32> = m.cols.keys().cloned().collect();
	cols.push(cid(40));
	let bools = [false, true];
	let mut lists: Vec<L> = vec![vec![]];
	let one: Vec<(u32, u128)> = [0, 1, 2].iter().flat_map(|s| [0, 1, 2, 3, 6, u128::MAX].map(|q| (*s, q))).collect();
	for a in &one {
		lists.push(vec![*a]);
		for b in &one {
			if a.1 > 0 && a.1 < 6 && b.1 < 6 {
				lists.push(vec![*a, *b]);
			}
		}
	}
	lists.push(vec![(0, 1), (1, 1), (0, 1)]);
	for &col in &cols {
		for who in 0..3 {
			for list in &lists {
				for to in [0, 1, 2, 5] {
					v.push(Op::Transfer { who, col, list: list.clone(), to });
					v.push(Op::Mint { who, col, list: list.clone(), to: Some(to) });
				}
				v.push(Op::Mint { who, col, list: list.clone(), to: None });
				v.push(Op::Burn { who, col, list: list.clone() });
			}
			for initial in [0, 1, 3, 4, u128::MAX] {
				for max in [None, Some(0), Some(1), Some(3), Some(u128::MAX)] {
					for to in [None, Some(0), Some(2)] {
						for name in [0, 1, 200] {
							v.push(Op::Create { who, col, name, initial, max, to });
						}
					}
				}
			}
			for s in 0..3 {
				let tok = (col, s);
				for q in [0, 1, 2, 3, 5, u128::MAX] {
					v.push(Op::Reserve { who, tok, q });
					v.push(Op::Free { who, tok, q });
				}
				for on in bools {
					v.push(Op::Toggle { who, tok, on });
				}
				for price in [None, Some(0), Some(1), Some(PRICE), Some(u128::MAX)] {
					v.push(Op::Price { who, tok, price });
				}
				for max in [0, 1, 2, 3, 4, 5, 6, 7, 8, u128::MAX] {
					v.push(Op::SetMax { who, tok, max });
				}
			}
			for k in 0..8 {
				v.push(Op::SetFlags { who, col, flags: (k & 1 > 0, k & 2 > 0, k & 4 > 0) });
			}
			for new in 0..3 {
				v.push(Op::SetOwner { who, col, new });
				for on in bools {
					for none in bools {
						v.push(Op::ApproveAll { none, caller: who, op: new, col, on });
					}
				}
			}
			for uri in 1..3 {
				v.push(Op::SetUri { who, col, uri });
			}
			for name in [0, 9, 200] {
				v.push(Op::SetName { who, col, name });
			}
			for roy in 1..7 {
				v.push(Op::SetRoy { who, col, roy });
			}
		}
	}
	for who in 0..3 {
		for owner in [None, Some(0), Some(2)] {
			for roy in 0..7 {
				for name in [0, 1, 200] {
					v.push(Op::CreateCol { who, owner, name, roy });
				}
			}
		}
	}
	v
}
fn run(c: &mut Ctx, f: Focus, d: (usize, usize), rich: usize) {
	c.assume("four holders per token and three entries per call, so that the limits are reached within the depth");
	let b = c.pick(d.0, d.1);
	c.bfs("focused alphabet", &S(f, Size::Lean), depth(b));
	let b = c.pick(2, rich);
	c.bfs("full alphabet", &S(f, Size::Rich), depth(b));
	c.bfs("all argument combinations", &S(f, Size::Product), depth(1));
}
pub fn balances(c: &mut Ctx) {
	run(c, Focus::Balances, (3, 4), 3)
}
pub fn minting(c: &mut Ctx) {
	run(c, Focus::Mint, (2, 3), 3)
}
pub fn admin(c: &mut Ctx) {
	run(c, Focus::Admin, (3, 4), 3)
}
