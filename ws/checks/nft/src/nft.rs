//! Lock-step exploration of the NFT pallet with token approvals.
use crate::rt::*;
use explore::*;
use frame_support::traits::fungibles::{Inspect, Mutate};
use pallet_nft::traits::NFTCollectionInfo;
use seed_pallet_common::utils::{CollectionUtilityFlags, PublicMintInformation};
use seed_pallet_common::*;
use seed_primitives::{nft::TokenLockReason, CrossChainCompatibility, OriginChain, RoyaltiesSchedule};
use std::collections::{BTreeMap, BTreeSet};

const NACC: usize = 4; // 0 alice (collection owner) 1 bob 2 carol 3 the pallet's own account
fn acc(i: usize) -> AccountId {
	match i {
		3 => Nft::account_id(),
		i => create_account(50 + i as u64),
	}
}
const PAY: AssetId = 7;
const PRICE: u128 = 40;
type Flags = (bool, bool, bool); // transferable, burnable, mintable
#[derive(Clone, Hash, Debug, PartialEq)]
struct Col {
	owner: usize,
	next: u32,
	max: Option<u32>,
	bridged: bool,
	xrpl: bool,
	flags: Flags,
	public: bool,
	price: Option<u128>,
	tokens: BTreeMap<u32, usize>,
	royalties: usize,
	name: Vec<u8>,
	uri: Vec<u8>,
}
#[derive(Clone, Hash, Debug)]
pub struct M {
	cols: BTreeMap<u32, Col>,
	created: u32,
	locks: BTreeSet<(u32, u32)>,
	appr: BTreeMap<(u32, u32), usize>,
	all: BTreeSet<(usize, u32, usize)>,
	bal: [u128; NACC],
}
#[derive(Clone, Debug)]
enum Op {
	Create { who: usize, initial: u32, max: Option<u32>, to: Option<usize>, roy: usize, xrpl: bool, name: &'static [u8] },
	Mint { who: usize, col: u32, q: u32, to: Option<usize> },
	Bridged { to: usize, col: u32, serials: Vec<u32> },
	Transfer { who: usize, col: u32, serials: Vec<u32>, to: usize },
	Burn { who: usize, tok: (u32, u32) },
	SetOwner { who: usize, col: u32, new: usize },
	Claim { root: bool, col: u32, new: usize },
	SetMax { who: usize, col: u32, max: u32 },
	SetName { who: usize, col: u32, name: &'static [u8] },
	SetUri { who: usize, col: u32 },
	SetRoyalties { who: usize, col: u32, roy: usize },
	Toggle { who: usize, col: u32, on: bool },
	Price { who: usize, col: u32, price: Option<u128> },
	SetFlags { who: usize, col: u32, flags: Flags },
	Xls20 { who: usize, col: u32 },
	Lock { who: usize, tok: (u32, u32) },
	Unlock { tok: (u32, u32) },
	Approve { none: bool, caller: usize, op: usize, tok: (u32, u32) },
	Unapprove { who: usize, tok: (u32, u32) },
	ApproveAll { none: bool, caller: usize, op: usize, col: u32, on: bool },
}
/// royalty schedules: 0 = none, 1 = 25%, 2 = exactly 100%, 3 = just over, 4 = empty list, 5 = too many entries, 6 = six entries
fn roy(i: usize) -> Option<RoyaltiesSchedule<AccountId>> {
	let l: Vec<u32> = match i {
		0 => return None,
		1 => vec![250_000],
		2 => vec![400_000, 600_000],
		3 => vec![400_000, 600_001],
		4 => vec![],
		5 => vec![1; 7],
		_ => vec![1; 6],
	};
	Some(RoyaltiesSchedule { entitlements: BoundedVec::truncate_from(l.into_iter().enumerate().map(|(k, p)| (create_account(90 + k as u64), Permill::from_parts(p))).collect()) })
}
fn roy_ok(i: usize) -> bool {
	matches!(i, 0 | 1 | 2 | 6)
}
fn name_ok(n: &[u8]) -> bool {
	!n.is_empty() && std::str::from_utf8(n).is_ok()
}
fn cid(n: u32) -> u32 {
	(n << 10) | 100
}
impl M {
	fn own(&self, who: usize, col: u32) -> Option<()> {
		(self.cols.get(&col)?.owner == who).then_some(())
	}
	fn apply(&mut self, op: &Op) -> Option<()> {
		match op {
			Op::Create { who, initial, max, to, roy, xrpl, name } => {
				if let Some(m) = max {
					if *m == 0 || initial > m || *m > MAX_TOKENS {
						return None;
					}
				}
				if !name_ok(name) || !roy_ok(*roy) || *initial > MINT_LIMIT || (*initial > 0 && *xrpl) {
					return None;
				}
				let tokens = (0..*initial).map(|s| (s, to.unwrap_or(*who))).collect();
				self.cols.insert(
					cid(self.created + 1),
					Col { owner: *who, next: *initial, max: *max, bridged: false, xrpl: *xrpl, flags: (true, true, true), public: false, price: None, tokens, royalties: *roy, name: name.to_vec(), uri: b"https://x/".to_vec() },
				);
				self.created += 1;
			},
			Op::Mint { who, col, q, to } => {
				let c = self.cols.get_mut(col)?;
				let n = c.next.checked_add(*q)?;
				if *q == 0 || *q > MINT_LIMIT || !c.flags.2 || c.bridged || (c.owner != *who && !c.public) {
					return None;
				}
				if n > MAX_TOKENS || c.tokens.len() as u32 + q >= MAX_TOKENS || c.max.map_or(false, |m| n > m) {
					return None;
				}
				if c.owner != *who {
					if let Some(p) = c.price {
						let fee = p.saturating_mul(*q as u128);
						self.bal[*who] = self.bal[*who].checked_sub(fee)?;
						self.bal[c.owner] += fee;
					}
				}
				for s in c.next..n {
					c.tokens.insert(s, to.unwrap_or(*who));
				}
				c.next = n;
			},
			Op::Bridged { to, col, serials } => {
				// tokens that exist stay where they are, an unknown collection mints nothing
				let Some(c) = self.cols.get_mut(col) else { return Some(()) };
				let s: BTreeSet<u32> = serials.iter().filter(|s| !c.tokens.contains_key(s)).cloned().collect();
				if c.tokens.len() + s.len() > MAX_TOKENS as usize {
					return None;
				}
				c.tokens.extend(s.into_iter().map(|s| (s, *to)));
			},
			Op::Transfer { who, col, serials, to } => {
				let c = self.cols.get_mut(col)?;
				if who == to || !c.flags.0 || serials.iter().any(|s| c.tokens.get(s) != Some(who) || self.locks.contains(&(*col, *s))) {
					return None;
				}
				for s in serials {
					c.tokens.insert(*s, *to);
					self.appr.remove(&(*col, *s));
				}
			},
			Op::Burn { who, tok } => {
				let c = self.cols.get_mut(&tok.0)?;
				if self.locks.contains(tok) || !c.flags.1 || c.tokens.get(&tok.1) != Some(who) {
					return None;
				}
				c.tokens.remove(&tok.1);
				self.appr.remove(tok);
			},
			Op::SetOwner { who, col, new } => {
				self.own(*who, *col)?;
				self.cols.get_mut(col)?.owner = *new;
			},
			Op::Claim { root, col, new } => {
				if !root || self.cols.get(col)?.owner != 3 {
					return None;
				}
				self.cols.get_mut(col)?.owner = *new;
			},
			Op::SetMax { who, col, max } => {
				self.own(*who, *col)?;
				let c = self.cols.get_mut(col)?;
				if *max == 0 || c.max.is_some() || c.tokens.len() as u32 > *max {
					return None;
				}
				c.max = Some(*max);
			},
			Op::SetName { who, col, name } => {
				self.own(*who, *col)?;
				if !name_ok(name) {
					return None;
				}
				self.cols.get_mut(col)?.name = name.to_vec();
			},
			Op::SetUri { who, col } => {
				self.own(*who, *col)?;
				let c = self.cols.get_mut(col)?;
				if c.xrpl || c.bridged {
					return None;
				}
				c.uri = b"ipfs://new".to_vec();
			},
			Op::SetRoyalties { who, col, roy } => {
				self.own(*who, *col)?;
				if !roy_ok(*roy) {
					return None;
				}
				self.cols.get_mut(col)?.royalties = *roy;
			},
			Op::Toggle { who, col, on } => {
				self.own(*who, *col)?;
				self.cols.get_mut(col)?.public = *on;
			},
			Op::Price { who, col, price } => {
				self.own(*who, *col)?;
				self.cols.get_mut(col)?.price = *price;
			},
			Op::SetFlags { who, col, flags } => {
				self.own(*who, *col)?;
				self.cols.get_mut(col)?.flags = *flags;
			},
			Op::Xls20 { who, col } => {
				self.own(*who, *col)?;
				let c = self.cols.get_mut(col)?;
				if !c.tokens.is_empty() {
					return None;
				}
				c.xrpl = true;
			},
			Op::Lock { who, tok } => {
				if self.locks.contains(tok) || self.cols.get(&tok.0)?.tokens.get(&tok.1) != Some(who) {
					return None;
				}
				self.locks.insert(*tok);
			},
			Op::Unlock { tok } => {
				self.locks.remove(tok);
			},
			Op::Approve { none, caller, op, tok } => {
				let o = *self.cols.get(&tok.0)?.tokens.get(&tok.1)?;
				if !none || caller == op || (o != *caller && !self.all.contains(&(o, tok.0, *caller))) {
					return None;
				}
				self.appr.insert(*tok, *op);
			},
			Op::Unapprove { who, tok } => {
				if self.cols.get(&tok.0)?.tokens.get(&tok.1) != Some(who) || !self.appr.contains_key(tok) {
					return None;
				}
				self.appr.remove(tok);
			},
			Op::ApproveAll { none, caller, op, col, on } => {
				if !none || caller == op {
					return None;
				}
				if *on {
					self.all.insert((*caller, *col, *op));
				} else {
					self.all.remove(&(*caller, *col, *op));
				}
			},
		}
		Some(())
	}
}
fn exec(op: &Op) -> Result<(), String> {
	let s = |w: &usize| RuntimeOrigin::signed(acc(*w));
	let b = |n: &[u8]| BoundedVec::truncate_from(n.to_vec());
	let or = |n: &bool| if *n { RuntimeOrigin::none() } else { RuntimeOrigin::signed(acc(0)) };
	call(|| match op {
		Op::Create { who, initial, max, to, roy: r, xrpl, name } => {
			Nft::create_collection(s(who), b(name), *initial, *max, to.map(acc), MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), roy(*r), CrossChainCompatibility { xrpl: *xrpl })
		},
		Op::Mint { who, col, q, to } => Nft::mint(s(who), *col, *q, to.map(acc)),
		Op::Bridged { to, col, serials } => <Nft as NFTMinter>::mint_bridged_nft(&acc(*to), *col, serials.clone()).map(|_| ()).map_err(|e| e.1),
		Op::Transfer { who, col, serials, to } => Nft::transfer(s(who), *col, BoundedVec::try_from(serials.clone()).unwrap(), acc(*to)),
		Op::Burn { who, tok } => Nft::burn(s(who), *tok),
		Op::SetOwner { who, col, new } => Nft::set_owner(s(who), *col, acc(*new)),
		Op::Claim { root, col, new } => Nft::claim_unowned_collection(if *root { RuntimeOrigin::root() } else { s(new) }, *col, acc(*new)),
		Op::SetMax { who, col, max } => Nft::set_max_issuance(s(who), *col, *max),
		Op::SetName { who, col, name } => Nft::set_name(s(who), *col, b(name)),
		Op::SetUri { who, col } => Nft::set_base_uri(s(who), *col, b"ipfs://new".to_vec()),
		Op::SetRoyalties { who, col, roy: r } => Nft::set_royalties_schedule(s(who), *col, roy(*r).unwrap()),
		Op::Toggle { who, col, on } => Nft::toggle_public_mint(s(who), *col, *on),
		Op::Price { who, col, price } => Nft::set_mint_fee(s(who), *col, price.map(|p| (PAY, p))),
		Op::SetFlags { who, col, flags } => Nft::set_utility_flags(s(who), *col, CollectionUtilityFlags { transferable: flags.0, burnable: flags.1, mintable: flags.2 }),
		Op::Xls20 { who, col } => Xls20::enable_xls20_compatibility(s(who), *col),
		Op::Lock { who, tok } => <Nft as NFTExt>::set_token_lock(*tok, TokenLockReason::Listed(1), acc(*who)),
		Op::Unlock { tok } => Ok(<Nft as NFTExt>::remove_token_lock(*tok)),
		Op::Approve { none, caller, op, tok } => Approvals::erc721_approval(or(none), acc(*caller), acc(*op), *tok),
		Op::Unapprove { who, tok } => Approvals::erc721_remove_approval(s(who), *tok),
		Op::ApproveAll { none, caller, op, col, on } => Approvals::erc721_approval_for_all(or(none), acc(*caller), acc(*op), *col, *on),
	})
}
const SERIALS: u32 = 11;
fn check(m: &M) -> Check {
	for n in 0..m.created + 2 {
		let id = cid(n + 1);
		let got = Nft::get_collection_info(id);
		let Some(c) = m.cols.get(&id) else {
			req!(got.is_err() && !Nft::collection_exists(id), "collections: collection {id} appeared from nowhere");
			continue;
		};
		let g = got.map_err(|_| format!("collections: collection {id} is gone"))?;
		req!(g.owner == acc(c.owner), "collection owner: of {id} is not {}", c.owner);
		req!(g.next_serial_number == c.next, "serials: next serial of {id} is {} expected {}", g.next_serial_number, c.next);
		req!(g.max_issuance == c.max, "max issuance: of {id} is {:?} expected {:?}", g.max_issuance, c.max);
		req!((g.origin_chain != OriginChain::Root) == c.bridged && g.cross_chain_compatibility.xrpl == c.xrpl, "collection: origin or compatibility of {id} changed");
		req!(g.name.to_vec() == c.name && g.metadata_scheme.0.to_vec() == c.uri && g.royalties_schedule == roy(c.royalties), "collection: attributes of {id} differ from what its owner set");
		let f = pallet_nft::UtilityFlags::<Test>::get(id);
		req!((f.transferable, f.burnable, f.mintable) == c.flags, "utility flags: of {id} are {f:?}");
		let p = pallet_nft::PublicMintInfo::<Test>::get(id).unwrap_or_default();
		req!(p == PublicMintInformation { enabled: c.public, pricing_details: c.price.map(|p| (PAY, p)) }, "public mint: of {id} is {p:?}");
		// ownership
		let (iss, _) = <Nft as NFTExt>::get_collection_issuance(id).unwrap();
		req!(iss as usize == c.tokens.len(), "issuance: of {id} is {iss}, {} tokens exist", c.tokens.len());
		if let (Some(mx), false) = (c.max, c.bridged) {
			req!(iss <= mx, "max issuance: {id} has {iss} tokens of at most {mx}");
		}
		for s in 0..SERIALS {
			let o = <Nft as NFTExt>::get_token_owner(&(id, s));
			req!(o == c.tokens.get(&s).map(|o| acc(*o)), "token owner: of ({id},{s}) is {o:?}, expected account {:?}", c.tokens.get(&s));
			req!(<Nft as NFTExt>::get_token_lock((id, s)).is_some() == m.locks.contains(&(id, s)), "locks: of ({id},{s})");
			for w in 0..NACC {
				let e = c.tokens.get(&s) == Some(&w) || m.appr.get(&(id, s)) == Some(&w) || c.tokens.get(&s).map_or(false, |o| m.all.contains(&(*o, id, w)));
				let a = Approvals::is_approved_or_owner((id, s), acc(w));
				req!(a == e, "approvals: account {w} may move ({id},{s}): {a}, expected {e}");
			}
		}
		let mut total = 0;
		for w in 0..NACC {
			let mine: Vec<u32> = c.tokens.iter().filter(|(_, o)| **o == w).map(|(s, _)| *s).collect();
			let b = Nft::token_balance_of(&acc(w), id);
			total += b;
			req!(b as usize == mine.len(), "balance: account {w} owns {} tokens of {id}, reported {b}", mine.len());
			let (_, t, l) = Nft::owned_tokens(id, &acc(w), 0, 1000);
			req!(t as usize == mine.len() && l == mine, "owned tokens: of account {w} in {id}: {l:?} (total {t}), expected {mine:?}");
			// walking the list in pages of any size yields exactly the same tokens
			for page in 1..=2u16 {
				let (mut cur, mut all) = (0, vec![]);
				for _ in 0..20 {
					let (n, _, l) = Nft::owned_tokens(id, &acc(w), cur, page);
					req!(l.len() <= page as usize, "owned tokens: a page is longer than asked for");
					all.extend(l);
					if n == 0 {
						break;
					}
					cur = n;
				}
				req!(all == mine, "owned tokens: pages of {page} for account {w} in {id} give {all:?}, expected {mine:?}");
			}
		}
		req!(total == iss, "balances: owners of {id} hold {total} tokens, issuance is {iss}");
	}
	for w in 0..NACC {
		req!(AssetsExt::balance(PAY, &acc(w)) == m.bal[w], "payment: account {w} has {} of the payment asset, expected {}", AssetsExt::balance(PAY, &acc(w)), m.bal[w]);
	}
	Ok(())
}
#[derive(Clone, Copy, PartialEq)]
enum Focus {
	Own,
	Mint,
	Owner,
	Appr,
}
struct Spec1 {
	focus: Focus,
	rich: bool,
	/// every combination of the arguments of every operation
	product: bool,
}
impl Spec for Spec1 {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		if self.product {
			4
		} else {
			3
		}
	}
	fn init(&self, i: usize) -> M {
		System::set_block_number(1);
		pallet_nft::NextCollectionId::<Test>::put(1);
		Assets::force_create(RuntimeOrigin::root(), PAY, acc(0), true, 1).unwrap();
		let mut m = M { cols: Default::default(), created: 0, locks: Default::default(), appr: Default::default(), all: Default::default(), bal: [0, 100, 90, 0] };
		AssetsExt::mint_into(PAY, &acc(1), 100).unwrap();
		AssetsExt::mint_into(PAY, &acc(2), 90).unwrap();
		let mut run = |op: Op| {
			m.apply(&op).expect("setup refused by the reference");
			exec(&op).expect("setup");
		};
		run(Op::Create { who: 0, initial: 3, max: if i == 1 { Some(5) } else { None }, to: Some(1), roy: 0, xrpl: false, name: b"one" });
		let c = cid(1);
		if i >= 1 {
			run(Op::Burn { who: 1, tok: (c, 1) });
			run(Op::Toggle { who: 0, col: c, on: true });
			run(Op::Price { who: 0, col: c, price: Some(PRICE) });
		}
		if i == 2 {
			run(Op::Transfer { who: 1, col: c, serials: vec![0], to: 2 });
			run(Op::Mint { who: 0, col: c, q: 3, to: Some(2) });
			run(Op::Lock { who: 2, tok: (c, 0) });
		}
		if i >= 1 {
			// a collection bridged from another chain, held by the pallet until claimed
			Nft::do_create_collection(acc(3), BoundedVec::truncate_from(b"far".to_vec()), 0, None, None, MetadataScheme::try_from(b"ethereum://".as_slice()).unwrap(), None, OriginChain::Ethereum, CrossChainCompatibility { xrpl: false }).unwrap();
			m.created += 1;
			m.cols.insert(cid(2), Col { owner: 3, next: 0, max: None, bridged: true, xrpl: false, flags: (true, true, true), public: false, price: None, tokens: Default::default(), royalties: 0, name: b"far".to_vec(), uri: b"ethereum://".to_vec() });
			let mut run = |op: Op| {
				m.apply(&op).expect("setup refused by the reference");
				exec(&op).expect("setup");
			};
			run(Op::Bridged { to: 1, col: cid(2), serials: vec![9, 4] });
		}
		if i == 3 {
			// an XLS-20 collection without tokens; tokens, free mints and approvals of several people
			let mut run = |op: Op| {
				m.apply(&op).expect("setup refused by the reference");
				exec(&op).expect("setup");
			};
			run(Op::Create { who: 1, initial: 0, max: Some(7), to: None, roy: 2, xrpl: true, name: b"xls" });
			run(Op::Mint { who: 0, col: c, q: 2, to: Some(1) });
			run(Op::Price { who: 0, col: c, price: Some(1) });
			run(Op::Mint { who: 2, col: c, q: 1, to: Some(0) });
			for (s, o) in [(0, 1), (2, 1), (3, 1), (4, 1), (5, 0)] {
				run(Op::Approve { none: true, caller: o, op: (o + 1 + s as usize % 2) % 3, tok: (c, s) });
			}
			run(Op::Approve { none: true, caller: 1, op: 0, tok: (cid(2), 4) });
			run(Op::ApproveAll { none: true, caller: 0, op: 2, col: c, on: true });
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		if self.product {
			return product(m);
		}
		let mut v = vec![];
		let f = self.focus;
		let cols: Vec<u32> = m.cols.keys().cloned().collect();
		for &col in &cols {
			let c = &m.cols[&col];
			let toks: Vec<u32> = c.tokens.keys().cloned().collect();
			// ownership
			if f == Focus::Own || self.rich {
				for who in 0..3 {
					let mine: Vec<u32> = toks.iter().filter(|s| c.tokens[s] == who).cloned().collect();
					for to in 0..3 {
						for s in &mine {
							v.push(Op::Transfer { who, col, serials: vec![*s], to });
						}
						if mine.len() > 1 {
							v.push(Op::Transfer { who, col, serials: mine.iter().rev().cloned().collect(), to });
							v.push(Op::Transfer { who, col, serials: vec![mine[0], mine[0]], to });
						}
						if let Some(o) = toks.iter().find(|s| c.tokens[s] != who) {
							v.push(Op::Transfer { who, col, serials: mine.first().cloned().into_iter().chain([*o]).collect(), to });
						}
						v.push(Op::Transfer { who, col, serials: mine.first().cloned().into_iter().chain([10]).collect(), to });
					}
					for s in toks.iter().chain([&10]) {
						if self.rich || c.tokens.get(s) == Some(&who) {
							v.push(Op::Burn { who, tok: (col, *s) });
						}
					}
				}
				v.push(Op::Transfer { who: 1, col, serials: vec![], to: 2 });
				for s in &toks {
					v.push(Op::Lock { who: c.tokens[s], tok: (col, *s) });
					v.push(Op::Lock { who: 0, tok: (col, *s) });
					v.push(Op::Unlock { tok: (col, *s) });
				}
				if c.bridged {
					v.push(Op::Bridged { to: 2, col, serials: vec![0, 1, 1, 4] });
					v.push(Op::Bridged { to: 2, col, serials: vec![10, 7, 10, 8] });
					v.push(Op::Bridged { to: 0, col, serials: vec![2, 3, 5, 6] });
				}
				v.push(Op::Mint { who: c.owner, col, q: 2, to: Some(1) });
				v.push(Op::SetFlags { who: c.owner, col, flags: (false, true, true) });
				v.push(Op::SetFlags { who: c.owner, col, flags: (true, false, true) });
				v.push(Op::SetFlags { who: c.owner, col, flags: (true, true, true) });
			}
			if f == Focus::Mint || self.rich {
				for who in 0..3 {
					for q in [0, 1, 2, 3, 4, u32::MAX] {
						v.push(Op::Mint { who, col, q, to: (q == 2).then_some(2) });
					}
				}
				for max in [0, 2, 3, 6, 8, 20] {
					v.push(Op::SetMax { who: c.owner, col, max });
				}
				for on in [true, false] {
					v.push(Op::Toggle { who: c.owner, col, on });
				}
				for price in [None, Some(1), Some(PRICE), Some(u128::MAX / 2)] {
					v.push(Op::Price { who: c.owner, col, price });
				}
				for flags in [(true, true, false), (true, true, true)] {
					v.push(Op::SetFlags { who: c.owner, col, flags });
				}
				for s in &toks {
					v.push(Op::Burn { who: c.tokens[s], tok: (col, *s) });
				}
				v.push(Op::SetOwner { who: c.owner, col, new: 1 });
				if c.bridged {
					v.push(Op::Bridged { to: 2, col, serials: vec![1, 3] });
				}
			}
			if f == Focus::Owner || self.rich {
				for who in 0..4 {
					v.push(Op::SetOwner { who, col, new: 1 });
					v.push(Op::SetOwner { who, col, new: 3 });
					v.push(Op::SetMax { who, col, max: 4 });
					v.push(Op::SetName { who, col, name: b"two" });
					v.push(Op::SetUri { who, col });
					v.push(Op::SetRoyalties { who, col, roy: 2 });
					v.push(Op::Toggle { who, col, on: true });
					v.push(Op::Price { who, col, price: Some(3) });
					v.push(Op::SetFlags { who, col, flags: (false, false, false) });
					v.push(Op::Xls20 { who, col });
				}
				for roy in [1, 3, 4, 5, 6] {
					v.push(Op::SetRoyalties { who: c.owner, col, roy });
				}
				for name in [b"".as_slice(), b"\xff", "é".as_bytes()] {
					v.push(Op::SetName { who: c.owner, col, name });
				}
				for root in [true, false] {
					v.push(Op::Claim { root, col, new: 2 });
				}
				for s in &toks {
					v.push(Op::Burn { who: c.tokens[s], tok: (col, *s) });
				}
			}
			if f == Focus::Appr || self.rich {
				for caller in 0..3 {
					for op in 0..3 {
						for s in toks.iter().take(3).chain([&10]) {
							v.push(Op::Approve { none: true, caller, op, tok: (col, *s) });
						}
						for on in [true, false] {
							v.push(Op::ApproveAll { none: true, caller, op, col, on });
						}
					}
					for s in toks.iter().take(2) {
						v.push(Op::Unapprove { who: caller, tok: (col, *s) });
					}
				}
				if let Some(s) = toks.first() {
					let o = c.tokens[s];
					v.push(Op::Approve { none: false, caller: o, op: (o + 1) % 3, tok: (col, *s) });
					v.push(Op::ApproveAll { none: false, caller: o, op: (o + 1) % 3, col, on: true });
					v.push(Op::Transfer { who: o, col, serials: vec![*s], to: (o + 1) % 3 });
					v.push(Op::Transfer { who: o, col, serials: vec![*s], to: (o + 2) % 3 });
					v.push(Op::Burn { who: o, tok: (col, *s) });
					if c.bridged {
						v.push(Op::Bridged { to: o, col, serials: vec![0, 1] });
					}
				}
			}
		}
		if (f == Focus::Mint || self.rich) && m.created < 3 {
			for (initial, max) in [(0, None), (3, None), (4, None), (2, Some(2)), (3, Some(2)), (0, Some(0)), (1, Some(8)), (1, Some(9))] {
				v.push(Op::Create { who: 1, initial, max, to: (initial == 2).then_some(2), roy: 0, xrpl: false, name: b"n" });
			}
			for roy in 1..7 {
				v.push(Op::Create { who: 1, initial: 1, max: None, to: None, roy, xrpl: false, name: b"n" });
			}
			for name in [b"".as_slice(), b"\xff\xfe"] {
				v.push(Op::Create { who: 1, initial: 1, max: None, to: None, roy: 0, xrpl: false, name });
			}
			v.push(Op::Create { who: 1, initial: 1, max: None, to: None, roy: 0, xrpl: true, name: b"n" });
			v.push(Op::Create { who: 1, initial: 0, max: None, to: None, roy: 0, xrpl: true, name: b"n" });
		}
		v.push(Op::Transfer { who: 1, col: cid(9), serials: vec![0], to: 2 });
		v.push(Op::Mint { who: 1, col: cid(9), q: 1, to: None });
		v.push(Op::Bridged { to: 1, col: cid(9), serials: vec![1] });
		if self.rich && m.cols.contains_key(&cid(2)) {
			v.push(Op::Bridged { to: 1, col: cid(2), serials: vec![] });
		}
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let h = shim::ext::state_hash();
		let mut want = m.clone();
		let ok = want.apply(op).is_some();
		let r = exec(op);
		let kind = format!("{op:?}").split([' ', '{']).next().unwrap().to_string();
		if let Err(e) = &r {
			req!(shim::ext::state_hash() == h, "atomicity: refused {kind} ({e}) changed the state");
		}
		match (&r, ok) {
			(Ok(()), false) => return Err(format!("admission: {kind} was accepted but must be refused")),
			(Err(e), true) => {
				// naming a token twice may be refused or treated as naming it once
				let dup = matches!(op, Op::Transfer { serials, .. } if serials.len() == 2 && serials[0] == serials[1]);
				req!(dup, "admission: {kind} was refused with {e} but must succeed");
			},
			(Ok(()), true) => *m = want,
			_ => {},
		}
		if r.is_ok() {
			check(m)?;
		}
		Ok(format!("{kind}: {}", r.err().unwrap_or("ok".into())))
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)
	}
}
fn product(m: &M) -> Vec<Op> {
	let mut v = vec![];
	let mut cols: Vec<u32> = m.cols.keys().cloned().collect();
	cols.push(cid(9));
	let tos = [None, Some(0), Some(1), Some(2)];
	let bools = [false, true];
	for &col in &cols {
		let mut toks: Vec<u32> = m.cols.get(&col).map(|c| c.tokens.keys().cloned().collect()).unwrap_or_default();
		toks.push(10);
		for who in 0..4 {
			for to in tos {
				for q in [0, 1, 2, 3, 4, 5, 8, u32::MAX] {
					v.push(Op::Mint { who, col, q, to });
				}
			}
			for to in 0..4 {
				v.push(Op::Transfer { who, col, serials: vec![], to });
				for &a in &toks {
					v.push(Op::Transfer { who, col, serials: vec![a], to });
					for &b in &toks {
						v.push(Op::Transfer { who, col, serials: vec![a, b], to });
					}
				}
				v.push(Op::SetOwner { who, col, new: to });
			}
			for &s in &toks {
				v.push(Op::Burn { who, tok: (col, s) });
				v.push(Op::Unapprove { who, tok: (col, s) });
				for op in 0..4 {
					for none in bools {
						v.push(Op::Approve { none, caller: who, op, tok: (col, s) });
					}
				}
			}
			for op in 0..4 {
				for none in bools {
					for on in bools {
						v.push(Op::ApproveAll { none, caller: who, op, col, on });
					}
				}
			}
			for max in 0..10 {
				v.push(Op::SetMax { who, col, max });
			}
			for name in [b"two".as_slice(), b"", b"\xff", "é".as_bytes()] {
				v.push(Op::SetName { who, col, name });
			}
			for roy in 1..7 {
				v.push(Op::SetRoyalties { who, col, roy });
			}
			for price in [None, Some(0), Some(1), Some(PRICE), Some(u128::MAX / 2), Some(u128::MAX)] {
				v.push(Op::Price { who, col, price });
			}
			for on in bools {
				v.push(Op::Toggle { who, col, on });
				v.push(Op::Claim { root: on, col, new: who });
			}
			for k in 0..8 {
				v.push(Op::SetFlags { who, col, flags: (k & 1 > 0, k & 2 > 0, k & 4 > 0) });
			}
			v.push(Op::SetUri { who, col });
			v.push(Op::Xls20 { who, col });
			if m.cols.get(&col).map_or(true, |c| c.bridged) {
				for a in 0..10 {
					for b in 0..10 {
						v.push(Op::Bridged { to: who, col, serials: vec![a, b] });
					}
				}
			}
		}
	}
	for who in 0..3 {
		for initial in 0..5 {
			for max in [None, Some(0), Some(1), Some(2), Some(4), Some(8), Some(9)] {
				for to in [None, Some(0), Some(2)] {
					for roy in [0, 2, 3] {
						for xrpl in bools {
							for name in [b"n".as_slice(), b""] {
								v.push(Op::Create { who, initial, max, to, roy, xrpl, name });
							}
						}
					}
				}
			}
		}
	}
	v
}
fn run(c: &mut Ctx, focus: Focus, d: usize, dt: usize) {
	c.assume("tokens per collection limited to 8 and mint batches to 3 so that the limits are reached within the depth; the part `large numbers` allows 2000 and 600");
	limits(MAX_TOKENS, MINT_LIMIT);
	let b = c.pick(d, dt);
	c.bfs("focused alphabet", &Spec1 { focus, rich: false, product: false }, depth(b));
	let b = c.pick(1, if focus == Focus::Own { 3 } else { 2 });
	c.bfs("full alphabet", &Spec1 { focus, rich: true, product: false }, depth(b));
	c.bfs("all argument combinations", &Spec1 { focus, rich: true, product: true }, depth(1));
}
/// Batches around the powers of 256 and the mint limit: exactly as many tokens, paid for one by one.
fn large(c: &mut Ctx) {
	limits(2000, 600);
	let mut inputs = vec![];
	for q in [1u32, 2, 255, 256, 257, 300, 511, 512, 513, 599, 600, 601, 1000] {
		for price in [None, Some(1u128), Some(1 << 70)] {
			for owner in [false, true] {
				for q2 in [0, 1, 255, 256, 600] {
					inputs.push((q, price, owner, q2));
				}
			}
		}
	}
	c.enumerate("large numbers", inputs.into_iter(), |&(q, price, owner, q2)| {
		System::set_block_number(1);
		pallet_nft::NextCollectionId::<Test>::put(1);
		Assets::force_create(RuntimeOrigin::root(), PAY, acc(0), true, 1).unwrap();
		AssetsExt::mint_into(PAY, &acc(1), 1 << 100).unwrap();
		let who = !owner as usize;
		let initial = exec(&Op::Create { who: 0, initial: q, max: None, to: Some(2), roy: 0, xrpl: false, name: b"c" });
		req!(initial.is_ok() == (q <= 600), "mint limit: a first issue of {q} tokens gives {initial:?}");
		if initial.is_err() {
			exec(&Op::Create { who: 0, initial: 1, max: None, to: Some(2), roy: 0, xrpl: false, name: b"c" }).unwrap();
		}
		let had = if initial.is_ok() { q } else { 1 };
		let col = cid(1);
		exec(&Op::Toggle { who: 0, col, on: true }).unwrap();
		exec(&Op::Price { who: 0, col, price }).unwrap();
		let mut sum = had;
		let mut bal = 1u128 << 100;
		for n in [q, q2] {
			if n == 0 {
				continue;
			}
			let h = shim::ext::state_hash();
			let r = exec(&Op::Mint { who, col, q: n, to: None });
			req!(r.is_ok() == (n <= 600 && sum + n < 2000), "mint limit: {n} tokens more than {sum} by account {who}: {r:?}");
			if r.is_err() {
				req!(shim::ext::state_hash() == h, "atomicity: a refused mint changed the state");
				continue;
			}
			sum += n;
			if !owner {
				bal -= price.unwrap_or(0) * n as u128;
			}
			req!(AssetsExt::balance(PAY, &acc(1)) == bal && AssetsExt::balance(PAY, &acc(0)) == (1 << 100) - bal, "payment: for {n} tokens at {price:?}");
			req!(Nft::token_balance_of(&acc(who), col) == sum - had, "balance: account {who} has {} tokens, not {}", Nft::token_balance_of(&acc(who), col), sum - had);
		}
		req!(Nft::token_balance_of(&acc(2), col) == had, "balance: the first issue");
		req!(<Nft as NFTExt>::get_collection_issuance(col).unwrap().0 == sum, "issuance: of {sum} tokens");
		// every token can be moved in one batch and burnt one by one, across all serial numbers
		let all: Vec<u32> = (0..had).collect();
		if let Ok(serials) = BoundedVec::try_from(all.clone()) {
			call(|| Nft::transfer(RuntimeOrigin::signed(acc(2)), col, serials, acc(1)))?;
			req!(Nft::token_balance_of(&acc(2), col) == 0, "batch transfer: tokens left behind");
			for s in [0, had - 1] {
				req!(<Nft as NFTExt>::get_token_owner(&(col, s)) == Some(acc(1)), "batch transfer: token {s}");
			}
		}
		Ok(format!("{} {}", r_name(initial.is_ok()), sum > had))
	});
	limits(MAX_TOKENS, MINT_LIMIT);
}
fn r_name(ok: bool) -> &'static str {
	if ok {
		"within limit"
	} else {
		"above limit"
	}
}
pub fn ownership(c: &mut Ctx) {
	run(c, Focus::Own, 2, 4)
}
pub fn minting(c: &mut Ctx) {
	run(c, Focus::Mint, 2, 4);
	large(c)
}
pub fn owner_only(c: &mut Ctx) {
	run(c, Focus::Owner, 3, 4)
}
pub fn approvals(c: &mut Ctx) {
	run(c, Focus::Appr, 3, 4)
}
