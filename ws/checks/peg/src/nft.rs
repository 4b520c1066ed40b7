//! K03, K04: the NFT peg, and the decoding of deposit messages.
use crate::*;
use std::collections::BTreeMap;
use sp_runtime::traits::AccountIdConversion;
const PEG: u64 = 0xd1;
const CONTRACTS: [u64; 2] = [0x81, 0x82];
const IDS: [u32; 4] = [0, 1, 300, 70_000];
const PEOPLE: usize = 3;
/// Where a token of Ethereum is.
#[derive(Clone, Copy, Hash, Debug, PartialEq)]
enum At {
	Ethereum,
	Root(usize),
	Blocked(u32),
	Burnt,
}
#[derive(Clone, Hash, Debug)]
pub struct M {
	at: BTreeMap<(usize, u32), At>,
	coll: BTreeMap<usize, u32>,
	blocked: BTreeMap<u32, (usize, Vec<u32>, usize)>,
	next_coll: u32,
	next_blocked: u32,
	sent: Vec<(Vec<usize>, Vec<Vec<u32>>, u64)>,
	/// Also a collection of this chain exists
	native: u32,
	native_tokens: u32,
	peg: u64,
}
#[derive(Clone, Debug)]
pub enum Op {
	Deposit { src: u64, what: Vec<(usize, Vec<u32>)>, who: usize },
	Withdraw { who: usize, what: Vec<(usize, Vec<u32>)>, to: u64 },
	/// Collections and serials of different number
	Uneven { who: usize, more: bool },
	Reclaim { who: usize, id: u32, to: u64 },
	Transfer { who: usize, c: usize, id: u32, to: usize },
	Burn { who: usize, c: usize, id: u32 },
	Address { root: bool, a: u64 },
}
impl M {
	fn issued(&self, c: usize) -> usize {
		self.at.iter().filter(|x| x.0 .0 == c && matches!(x.1, At::Root(_))).count()
	}
	fn apply(&mut self, op: &Op) -> Option<()> {
		match op {
			Op::Deposit { src, what, who } => {
				if *src != self.peg || what.len() > MAX_COLLS as usize || what.iter().any(|x| x.1.len() > MAX_IDS as usize) {
					return None;
				}
				let mut all = true;
				for (c, ids) in what {
					if !self.coll.contains_key(c) {
						self.coll.insert(*c, self.next_coll);
						self.next_coll += 1;
					}
					if ids.is_empty() {
						continue;
					}
					if self.issued(*c) + ids.len() <= MAX_TOKENS as usize {
						for i in ids {
							self.at.insert((*c, *i), At::Root(*who));
						}
					} else {
						all = false;
						for i in ids {
							self.at.insert((*c, *i), At::Blocked(self.next_blocked));
						}
						self.blocked.insert(self.next_blocked, (*c, ids.clone(), *who));
						self.next_blocked += 1;
					}
				}
				// reported as failed if any of them was blocked
				let _ = all;
			},
			Op::Withdraw { who, what, to } => {
				if what.len() > MAX_COLLS as usize || what.iter().any(|x| x.1.len() > MAX_IDS as usize) {
					return None;
				}
				let mut lists = (vec![], vec![]);
				for (c, ids) in what {
					if *c >= CONTRACTS.len() || !self.coll.contains_key(c) {
						return None;
					}
					for i in ids {
						let a = self.at.get_mut(&(*c, *i))?;
						if *a != At::Root(*who) {
							return None;
						}
						*a = At::Ethereum;
					}
					lists.0.push(*c);
					lists.1.push(ids.clone());
				}
				if *to == REFUSED {
					return None;
				}
				self.sent.push((lists.0, lists.1, *to));
			},
			Op::Uneven { .. } => return None,
			Op::Reclaim { who, id, to } => {
				let (c, ids, owner) = self.blocked.remove(id)?;
				if owner != *who || *to == REFUSED {
					return None;
				}
				for i in &ids {
					self.at.insert((c, *i), At::Ethereum);
				}
				self.sent.push((vec![c], vec![ids], *to));
			},
			Op::Transfer { who, c, id, to } => {
				let a = self.at.get_mut(&(*c, *id))?;
				if *a != At::Root(*who) || who == to {
					return None;
				}
				*a = At::Root(*to);
			},
			Op::Burn { who, c, id } => {
				let a = self.at.get_mut(&(*c, *id))?;
				if *a != At::Root(*who) {
					return None;
				}
				*a = At::Burnt;
			},
			Op::Address { root, a } => {
				if !root {
					return None;
				}
				self.peg = *a;
			},
		}
		Some(())
	}
	fn cid(&self, c: usize) -> u32 {
		if c == 9 {
			self.native
		} else {
			self.coll.get(&c).map_or(77, |n| (n << 10) | 100)
		}
	}
}
/// `(uint32 1, address[], uint32[][], address)`
fn encode(what: &[(u64, Vec<U256>)], dest: H160) -> Vec<u8> {
	let n = what.len() as u128;
	let mut d = w(1);
	d.extend(w(128));
	d.extend(w(128 + 32 * (1 + n)));
	d.extend(w_addr(dest));
	d.extend(arrays(what));
	d
}
/// `address[]` and `uint32[][]`
fn arrays(what: &[(u64, Vec<U256>)]) -> Vec<u8> {
	let n = what.len() as u128;
	let mut d = w(n);
	for x in what {
		d.extend(w_addr(h(x.0)));
	}
	d.extend(w(n));
	let mut at = 32 * n;
	for x in what {
		d.extend(w(at));
		at += 32 * (1 + x.1.len() as u128);
	}
	for x in what {
		d.extend(w(x.1.len() as u128));
		for i in &x.1 {
			d.extend(w_uint(*i));
		}
	}
	d
}
fn of(what: &[(usize, Vec<u32>)]) -> Vec<(u64, Vec<U256>)> {
	what.iter().map(|(c, v)| (CONTRACTS[*c], v.iter().map(|i| U256::from(*i)).collect())).collect()
}
fn exec(m: &M, op: &Op) -> Result<(), String> {
	let s = |w: &usize| RuntimeOrigin::signed(acc(*w));
	if let Op::Deposit { src, what, who } = op {
		let blocked = pallet_nft_peg::NextBlockedMintId::<Test>::get();
		let ok = deliver(1, h(*src), &encode(&of(what), user(*who)));
		// a delivery is reported as failed also if some of the tokens were blocked
		let any = pallet_nft_peg::NextBlockedMintId::<Test>::get() > blocked;
		if ok && any {
			return Err("BLOCKED BUT OK".into());
		}
		return if ok || any { Ok(()) } else { Err("deposit".into()) };
	}
	let bounded = |v: &Vec<u32>| sp_runtime::BoundedVec::try_from(v.clone()).map_err(|_| DispatchError::Other("too many"));
	call(|| match op {
		Op::Deposit { .. } => unreachable!(),
		Op::Withdraw { who, what, to } => {
			let cs: Vec<u32> = what.iter().map(|x| m.cid(x.0)).collect();
			let mut ids = vec![];
			for x in what {
				ids.push(bounded(&x.1)?);
			}
			NftPeg::withdraw(
				s(who),
				cs.try_into().map_err(|_| DispatchError::Other("too many"))?,
				ids.try_into().map_err(|_| DispatchError::Other("too many"))?,
				h(*to),
			)
		},
		Op::Uneven { who, more } => {
			let (c, ids) = if *more { (vec![m.cid(0), m.cid(0)], vec![bounded(&vec![0])?]) } else { (vec![m.cid(0)], vec![bounded(&vec![0])?, bounded(&vec![IDS[2]])?]) };
			NftPeg::withdraw(s(who), c.try_into().unwrap(), ids.try_into().unwrap(), h(1))
		},
		Op::Reclaim { who, id, to } => NftPeg::reclaim_blocked_nfts(s(who), *id, h(*to)),
		Op::Transfer { who, c, id, to } => Nft::transfer(s(who), m.cid(*c), vec![*id].try_into().unwrap(), acc(*to)),
		Op::Burn { who, c, id } => Nft::burn(s(who), (m.cid(*c), *id)),
		Op::Address { root, a } => NftPeg::set_contract_address(if *root { RuntimeOrigin::root() } else { s(&0) }, h(*a)),
	})
}
fn check(m: &mut M) -> Check {
	use pallet_nft_peg as p;
	req!(p::ContractAddress::<Test>::get() == h(m.peg), "address: is {:?}", p::ContractAddress::<Test>::get());
	req!(p::EthToRootNft::<Test>::iter().count() == m.coll.len() && p::RootNftToErc721::<Test>::iter().count() == m.coll.len(), "mapping: {} contracts are mapped, expected {}", p::EthToRootNft::<Test>::iter().count(), m.coll.len());
	for (c, _) in &m.coll {
		let cid = m.cid(*c);
		req!(p::EthToRootNft::<Test>::get(h(CONTRACTS[*c])) == Some(cid) && p::RootNftToErc721::<Test>::get(cid) == Some(h(CONTRACTS[*c])), "mapping: contract {c} is not mapped to collection {cid} and back");
		let g = pallet_nft::CollectionInfo::<Test>::get(cid).ok_or("collection: of a contract does not exist")?;
		req!(g.origin_chain == seed_primitives::OriginChain::Ethereum && g.owner == Nft::account_id(), "collection: {cid} is from {:?} and owned by {:?}", g.origin_chain, g.owner);
		let mut own: Vec<(u32, AccountId)> = g.owned_tokens.iter().flat_map(|o| o.owned_serials.iter().map(|s| (*s, o.owner))).collect();
		own.sort_by_key(|x| x.0);
		let want: Vec<(u32, AccountId)> = m.at.iter().filter_map(|(k, a)| if let At::Root(w) = a { (k.0 == *c).then_some((k.1, acc(*w))) } else { None }).collect();
		req!(own == want, "tokens: of contract {c} are {own:?} on Root, expected {want:?}");
		req!(g.collection_issuance as usize == own.len(), "issuance: {} tokens of contract {c} are counted, {} exist", g.collection_issuance, own.len());
	}
	let n = pallet_nft::CollectionInfo::<Test>::get(m.native).unwrap();
	req!(n.collection_issuance == m.native_tokens, "native: tokens of the native collection changed");
	let mut b: Vec<(u32, u32, Vec<u32>, AccountId)> = p::BlockedTokens::<Test>::iter().map(|(i, t)| (i, t.collection_id, t.serial_numbers.to_vec(), t.destination_address)).collect();
	b.sort_by_key(|x| x.0);
	let want: Vec<(u32, u32, Vec<u32>, AccountId)> = m.blocked.iter().map(|(i, (c, ids, who))| (*i, m.cid(*c), ids.clone(), acc(*who))).collect();
	req!(b == want, "blocked: {b:?} are blocked, expected {want:?}");
	let sent: Vec<Msg> = drain(SENT);
	let src: AccountId = NftPegPalletId::get().into_account_truncating();
	let want: Vec<Msg> = m
		.sent
		.drain(..)
		.map(|(cs, ids, to)| {
			let what: Vec<(u64, Vec<U256>)> = cs.iter().zip(ids).map(|(c, v)| (CONTRACTS[*c], v.iter().map(|i| U256::from(*i)).collect())).collect();
			let n = what.len() as u128;
			let mut d = w(96);
			d.extend(w(96 + 32 * (1 + n)));
			d.extend(w_addr(h(to)));
			d.extend(arrays(&what));
			(src.into(), h(m.peg), d)
		})
		.collect();
	req!(sent == want, "release: messages {sent:?} were sent, expected {want:?}");
	Ok(())
}
struct S(bool);
fn genesis() -> M {
	System::set_block_number(1);
	pallet_nft::NextCollectionId::<Test>::put(1);
	let uri = seed_primitives::MetadataScheme::try_from(b"https://a/".as_slice()).unwrap();
	let native = pallet_nft::Pallet::<Test>::do_create_collection(
		acc(0),
		BoundedVec::truncate_from(b"n".to_vec()),
		2,
		None,
		None,
		uri,
		None,
		seed_primitives::OriginChain::Root,
		seed_primitives::CrossChainCompatibility { xrpl: false },
	)
	.unwrap();
	let at = (0..CONTRACTS.len()).flat_map(|c| IDS.into_iter().map(move |i| ((c, i), At::Ethereum))).collect();
	M { at, coll: Default::default(), blocked: Default::default(), next_coll: 2, next_blocked: 0, sent: vec![], native, native_tokens: 2, peg: 0 }
}
fn both(m: &mut M, op: Op) {
	let r = exec(m, &op);
	assert!(m.apply(&op).is_some() && r.is_ok(), "setup: {op:?} {r:?}");
	check(m).unwrap();
}
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		3
	}
	fn init(&self, i: usize) -> M {
		let mut m = genesis();
		let x = &mut m;
		both(x, Op::Address { root: true, a: PEG });
		if i > 0 {
			both(x, Op::Deposit { src: PEG, what: vec![(0, vec![0, IDS[2]])], who: 0 });
		}
		if i > 1 {
			both(x, Op::Deposit { src: PEG, what: vec![(0, vec![1]), (1, vec![IDS[3]])], who: 1 });
			both(x, Op::Deposit { src: PEG, what: vec![(0, vec![IDS[3]])], who: 2 });
			both(x, Op::Transfer { who: 0, c: 0, id: 0, to: 2 });
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let r = self.0;
		let mut v = vec![];
		// the contract on Ethereum only ever sends what its users had
		let free = |c: usize| -> Vec<u32> { IDS.into_iter().filter(|i| m.at[&(c, *i)] == At::Ethereum).collect() };
		let (f0, f1) = (free(0), free(1));
		let mut lists: Vec<Vec<(usize, Vec<u32>)>> = vec![vec![], vec![(0, vec![])]];
		for (c, f) in [(0, &f0), (1, &f1)] {
			for i in f {
				lists.push(vec![(c, vec![*i])]);
			}
			for x in f.windows(2) {
				lists.push(vec![(c, vec![x[1], x[0]])]);
			}
			if f.len() > 2 {
				lists.push(vec![(c, f[..3].to_vec())]);
			}
		}
		if let (Some(a), Some(b)) = (f0.first(), f1.last()) {
			lists.push(vec![(0, vec![*a]), (1, vec![*b])]);
			lists.push(vec![(1, vec![*b]), (0, vec![*a])]);
			if f1.len() > 1 {
				lists.push(vec![(1, vec![f1[0], *b]), (0, vec![*a])]);
			}
		}
		if f0.len() > 1 {
			lists.push(vec![(0, vec![f0[0]]), (0, vec![f0[1]])]);
			if let Some(b) = f1.first() {
				lists.push(vec![(0, f0[..2].to_vec()), (1, vec![*b])]);
				lists.push(vec![(0, vec![f0[0]]), (1, vec![*b]), (0, vec![f0[1]])]);
			}
		}
		for (k, what) in lists.into_iter().enumerate() {
			v.push(Op::Deposit { src: m.peg, what: what.clone(), who: k % PEOPLE });
			if k == 3 {
				v.push(Op::Deposit { src: PEG + 7, what, who: 0 });
			}
		}
		for who in 0..PEOPLE {
			let mine = |c: usize| -> Vec<u32> { IDS.into_iter().filter(|i| m.at[&(c, *i)] == At::Root(who)).collect() };
			let (a, b) = (mine(0), mine(1));
			let mut l: Vec<Vec<(usize, Vec<u32>)>> = vec![];
			for (c, f) in [(0, &a), (1, &b)] {
				for i in f {
					l.push(vec![(c, vec![*i])]);
				}
				for x in f.windows(2) {
					l.push(vec![(c, vec![x[1], x[0]])]);
					l.push(vec![(c, vec![x[0]]), (c, vec![x[1]])]);
				}
				if let Some(i) = f.first() {
					l.push(vec![(c, vec![*i, *i])]);
					l.push(vec![(c, vec![*i]), (c, vec![*i])]);
					l.push(vec![(c, vec![*i]), (9, vec![0])]);
				}
				if f.len() > 2 {
					l.push(vec![(c, f.clone())]);
				}
			}
			if let (Some(x), Some(y)) = (a.last(), b.first()) {
				l.push(vec![(1, vec![*y]), (0, vec![*x])]);
			}
			if who == 0 {
				l.push(vec![]);
				l.push(vec![(9, vec![0])]);
				l.push(vec![(0, vec![IDS[3]])]);
				l.push(vec![(0, vec![])]);
				v.push(Op::Uneven { who, more: true });
				v.push(Op::Uneven { who, more: false });
			}
			for (k, what) in l.into_iter().enumerate() {
				if k == 0 {
					v.push(Op::Withdraw { who, what: what.clone(), to: REFUSED });
					v.push(Op::Withdraw { who: (who + 1) % PEOPLE, what: what.clone(), to: 0x90 });
				}
				v.push(Op::Withdraw { who, what, to: 0x90 });
			}
			for (c, f) in [(0, &a), (1, &b)] {
				if let Some(i) = f.first() {
					v.push(Op::Transfer { who, c, id: *i, to: (who + 1) % PEOPLE });
					if r || c == 0 {
						v.push(Op::Burn { who, c, id: *i });
					}
				}
			}
			for id in m.blocked.keys() {
				v.push(Op::Reclaim { who, id: *id, to: 0x91 });
				if r {
					v.push(Op::Reclaim { who, id: *id, to: REFUSED });
				}
			}
		}
		v.push(Op::Reclaim { who: 0, id: m.next_blocked, to: 0x91 });
		v.push(Op::Address { root: true, a: PEG + 1 });
		v.push(Op::Address { root: false, a: PEG + 2 });
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let before = (m.clone(), shim::ext::state_hash());
		let got = exec(m, op);
		let want = m.apply(op).is_some();
		let k = kind(op);
		if got == Err("BLOCKED BUT OK".into()) {
			return Err(format!("{k}: was reported as done though tokens were blocked"));
		}
		req!(got.is_ok() == want, "{k}: was {} ({got:?}), should be {}", if got.is_ok() { "done" } else { "refused" }, if want { "done" } else { "refused" });
		if !want {
			*m = before.0;
			req!(shim::ext::state_hash() == before.1, "{k}: was refused but had an effect");
			return Ok(format!("{k} refused"));
		}
		check(m)?;
		Ok(k)
	}
}
pub fn tokens(c: &mut Ctx) {
	c.assume("the contract on Ethereum only reports tokens that it received, each once");
	let d = c.pick(4, 5);
	c.bfs("tokens", &S(c.thorough()), depth(d));
}
/// A message: which peg it is for, how it is malformed, from whom.
#[derive(Clone, Debug)]
pub struct Case {
	peg: u8,
	src: u8,
	base: usize,
	/// cut to this length
	cut: Option<usize>,
	/// one word replaced by another
	word: Option<(usize, usize)>,
}
fn words() -> Vec<U256> {
	let mut v: Vec<U256> = [0u128, 1, 2, 3, 4, 31, 32, 64, 96, 128, 160, 192, 256, 0x72, 0x81, 0x82, 0xffff_ffff, 1 << 32, (1 << 32) + 1, u64::MAX as u128, 1 << 64, u128::MAX - 1, u128::MAX].iter().map(|x| U256::from(*x)).collect();
	v.push(U256::from(1u8) << 128);
	v.push((U256::from(1u8) << 160) + 0x81);
	v.push(U256::MAX);
	v
}
fn bases(peg: u8) -> Vec<Vec<u8>> {
	if peg == 0 {
		return vec![[w_addr(h(0x72)), w(5), w_addr(user(0))].concat(), [w_addr(h(0x75)), w(0), w_addr(user(0))].concat()];
	}
	vec![
		encode(&of(&[(0, vec![1, 2])]), user(0)),
		encode(&of(&[(0, vec![1]), (1, vec![3])]), user(1)),
		encode(&of(&[]), user(1)),
		[w(2), w(0)].concat(),
		encode(&of(&[(0, vec![1]), (0, vec![1, 2])]), user(2)),
		vec![],
	]
}
/// A straightforward reader of the ABI. `None` if malformed, or a number does not fit what is asked for.
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
	fn word(&self, at: usize) -> Option<U256> {
		self.0.get(at..at.checked_add(32)?).map(U256::from_big_endian)
	}
	fn size(&self, at: usize) -> Option<usize> {
		let x = self.word(at)?;
		(x <= U256::from(u32::MAX)).then(|| x.as_usize())
	}
	fn addr(&self, at: usize) -> Option<H160> {
		let x = self.word(at)?;
		let mut b = [0u8; 32];
		x.to_big_endian(&mut b);
		Some(H160::from_slice(&b[12..]))
	}
	fn list(&self, at: usize) -> Option<(usize, usize)> {
		Some((self.size(at)?, at + 32))
	}
}
/// What has to come of a message for the NFT peg: the lists of tokens and the recipient.
fn read_nft(d: &[u8]) -> Option<(Vec<(H160, Vec<u32>)>, H160)> {
	let r = Rd(d);
	if r.word(0)? != U256::one() {
		return None;
	}
	let (n, at) = r.list(r.size(32)?)?;
	if n > MAX_COLLS as usize {
		return None;
	}
	let (k, base) = r.list(r.size(64)?)?;
	let dest = r.addr(96)?;
	if n != k {
		return None;
	}
	let mut v = vec![];
	for i in 0..n {
		let a = r.addr(at + 32 * i)?;
		let (l, first) = r.list(base + r.size(base + 32 * i)?)?;
		if l > MAX_IDS as usize {
			return None;
		}
		let mut ids = vec![];
		for j in 0..l {
			let x = r.word(first + 32 * j)?;
			if x > U256::from(u32::MAX) {
				return None;
			}
			ids.push(x.as_u32());
		}
		v.push((a, ids));
	}
	Some((v, dest))
}
fn message(x: &Case) -> Step {
	shim::ext::begin();
	let r = message_in(x);
	shim::ext::rollback();
	r
}
fn message_in(x: &Case) -> Step {
	let mut d = bases(x.peg)[x.base].clone();
	if let Some((i, k)) = x.word {
		let mut b = [0u8; 32];
		words()[k].to_big_endian(&mut b);
		d[32 * i..32 * i + 32].copy_from_slice(&b);
	}
	if let Some(n) = x.cut {
		d.truncate(n);
	}
	let src = [PEG, 0xc1, 0xc2, 0xee][x.src as usize];
	let before = shim::ext::state_hash();
	let ok = deliver(x.peg, h(src), &d);
	let quiet = shim::ext::state_hash() == before;
	if x.peg == 0 {
		let r = Rd(&d);
		let want = (|| {
			let (t, a, w) = (r.addr(0)?, r.word(32)?, r.addr(64)?);
			if src != 0xc1 && src != 0xc2 || a >= U256::from(u128::MAX) {
				return None;
			}
			if t == h(0x72) && (src != 0xc1 || a > U256::from(u128::MAX - 100)) || t == h(0x71) && (src != 0xc2 || a > U256::from(20)) {
				return None;
			}
			Some((t, a.as_u128(), w))
		})();
		match want {
			None => {
				req!(!ok, "decoding: {x:?} was accepted");
				req!(quiet, "decoding: refused {x:?} had an effect");
				Ok("erc20 refused".into())
			},
			Some((t, a, w)) => {
				use frame_support::traits::fungibles::Inspect;
				req!(ok, "decoding: {x:?} was refused");
				let id = pallet_erc20_peg::Erc20ToAssetId::<Test>::get(t).ok_or("decoding: no asset for the token")?;
				let b = AssetsExt::balance(id, &w.into());
				req!(b == a, "decoding: {x:?} credits {b}, expected {a}");
				Ok("erc20 accepted".into())
			},
		}
	} else {
		match read_nft(&d).filter(|_| src == PEG) {
			None => {
				req!(!ok, "decoding: {x:?} was accepted");
				req!(quiet, "decoding: refused {x:?} had an effect");
				Ok("nft refused".into())
			},
			Some((lists, dest)) => {
				req!(ok, "decoding: {x:?} was refused");
				let mut got: Vec<(H160, Vec<u32>)> = vec![];
				for (a, cid) in pallet_nft_peg::EthToRootNft::<Test>::iter() {
					let g = pallet_nft::CollectionInfo::<Test>::get(cid).unwrap();
					for o in g.owned_tokens.iter() {
						req!(o.owner == dest.into(), "decoding: {x:?} mints to {:?}", o.owner);
						got.push((a, o.owned_serials.to_vec()));
					}
				}
				let mut want: BTreeMap<H160, std::collections::BTreeSet<u32>> = Default::default();
				for (a, v) in lists {
					want.entry(a).or_default().extend(v);
				}
				got.sort();
				let want: Vec<(H160, Vec<u32>)> = want.into_iter().filter(|x| !x.1.is_empty()).map(|(a, s)| (a, s.into_iter().collect())).collect();
				req!(got == want, "decoding: {x:?} mints {got:?}, expected {want:?}");
				Ok("nft accepted".into())
			},
		}
	}
}
pub fn messages(c: &mut Ctx) {
	let mut v = vec![];
	for peg in 0..2u8 {
		for (base, d) in bases(peg).into_iter().enumerate() {
			for src in 0..4u8 {
				for cut in (0..d.len()).map(Some).chain([None]) {
					v.push(Case { peg, src, base, cut, word: None });
				}
				for i in 0..d.len() / 32 {
					for k in 0..words().len() {
						v.push(Case { peg, src, base, cut: None, word: Some((i, k)) });
						if c.thorough() {
							for cut in 0..d.len() / 8 {
								v.push(Case { peg, src, base, cut: Some(8 * cut), word: Some((i, k)) });
							}
						}
					}
				}
			}
		}
	}
	c.enumerate("messages", v.into_iter(), |x| {
		genesis();
		crate::erc20::setup();
		NftPeg::set_contract_address(RuntimeOrigin::root(), h(PEG)).unwrap();
		message(x)
	});
}
