//! XLS-20 links and NFI data: lock-step exploration of the two side pallets together with NFT and SFT.
use crate::rt::*;
use explore::*;
use frame_support::traits::fungibles::{Inspect, Mutate};
use pallet_nfi::types::*;
use pallet_nft::traits::NFTCollectionInfo;
use codec::{Decode, Encode};
use frame_support::traits::Get;
use sp_runtime::traits::AccountIdConversion;
use seed_pallet_common::*;
use seed_primitives::{CrossChainCompatibility, OriginChain};
use sp_core::{H160, H256};
use std::collections::{BTreeMap, BTreeSet};
/// The token id decoder is private to its pallet: its source file is compiled in here.
#[path = "/repo/pallet/xls20/src/types.rs"]
#[allow(dead_code)]
mod types;

// 0 alice (collection owner) 1 bob 2 carol 3 relayer 4 second relayer 5 xls20 pallet 6 fee pot 7 fee receiver
fn acc(i: usize) -> AccountId {
	match i {
		5 => <Xls20PalletId as Get<PalletId>>::get().into_account_truncating(),
		i => create_account(70 + i as u64),
	}
}
const N: usize = 8;
const XLSFEE: AssetId = XRP_ASSET_ID;
const OTHER: AssetId = 9;
fn cid(n: u32) -> u32 {
	(n << 10) | 100
}
/// An XRPL token id, written from the XLS-20 layout: flags, transfer fee, issuer, scrambled taxon, sequence.
fn xid(flags: u16, issuer: u8, taxon: u32, seq: u32) -> [u8; 32] {
	let mut v = vec![];
	v.extend(flags.to_be_bytes());
	v.extend(314u16.to_be_bytes());
	v.extend([issuer; 20]);
	let scramble = ((384160001u128 * seq as u128 + 2459) % (1 << 32)) as u32;
	v.extend((taxon ^ scramble).to_be_bytes());
	v.extend(seq.to_be_bytes());
	v.try_into().unwrap()
}
#[derive(Clone, Hash, Debug)]
struct Col {
	owner: usize,
	next: u32,
	xrpl: bool,
	bridged: bool,
	tokens: BTreeMap<u32, usize>,
}
#[derive(Clone, Hash, Debug)]
pub struct M {
	cols: BTreeMap<u32, Col>,
	created: u32,
	relayer: Option<usize>,
	fee: u128,
	map: BTreeMap<(u32, u32), [u8; 32]>,
	cmap: BTreeMap<(u8, u32), u32>,
	bal: [u128; N],
}
#[derive(Clone, Debug)]
enum Op {
	SetRelayer { root: bool, who: usize },
	SetFee { root: bool, fee: u128 },
	Enable { who: usize, col: u32 },
	Mint { who: usize, col: u32, q: u32, to: Option<usize> },
	Burn { who: usize, tok: (u32, u32) },
	ReRequest { who: usize, col: u32, serials: Vec<u32> },
	Fulfill { who: usize, col: u32, list: Vec<(u32, u8)> },
	MapCols { root: bool, issuer: u8, taxon: u32, col: u32 },
	Deposit { to: usize, flags: u16, issuer: u8, taxon: u32, seq: u32 },
}
impl M {
	fn charge(&mut self, who: usize, n: usize) -> Option<()> {
		if let (Some(r), true) = (self.relayer, self.fee > 0) {
			let f = self.fee.checked_mul(n as u128)?;
			self.bal[who] = self.bal[who].checked_sub(f)?;
			self.bal[r] += f;
		}
		Some(())
	}
	fn apply(&mut self, op: &Op) -> Option<()> {
		match op {
			Op::SetRelayer { root, who } => {
				root.then_some(())?;
				self.relayer = Some(*who);
			},
			Op::SetFee { root, fee } => {
				root.then_some(())?;
				self.fee = *fee;
			},
			Op::Enable { who, col } => {
				let c = self.cols.get_mut(col)?;
				if c.owner != *who || !c.tokens.is_empty() {
					return None;
				}
				c.xrpl = true;
			},
			Op::Mint { who, col, q, to } => {
				let c = self.cols.get_mut(col)?;
				let most = MaxTokensPerCollection::get();
				if c.bridged || *q > MintLimit::get() || c.next + q > most || c.tokens.len() as u32 + q >= most {
					return None;
				}
				for s in c.next..c.next + q {
					c.tokens.insert(s, to.unwrap_or(*who));
				}
				c.next += q;
				if c.xrpl {
					self.charge(*who, *q as usize)?;
				}
			},
			Op::Burn { who, tok } => {
				let c = self.cols.get_mut(&tok.0)?;
				if c.tokens.get(&tok.1) != Some(who) {
					return None;
				}
				c.tokens.remove(&tok.1);
			},
			Op::ReRequest { who, col, serials } => {
				let c = self.cols.get(col)?;
				if serials.is_empty() || c.owner != *who || !c.xrpl || serials.iter().any(|s| !c.tokens.contains_key(s) || self.map.contains_key(&(*col, *s))) {
					return None;
				}
				self.charge(*who, serials.len())?;
			},
			Op::Fulfill { who, col, list } => {
				let c = self.cols.get(col)?;
				if list.is_empty() || self.relayer != Some(*who) {
					return None;
				}
				for (s, v) in list {
					if !c.tokens.contains_key(s) || self.map.insert((*col, *s), [*v; 32]).is_some() {
						return None;
					}
				}
			},
			Op::MapCols { root, issuer, taxon, col } => {
				root.then_some(())?;
				self.cmap.insert((*issuer, *taxon), *col);
			},
			Op::Deposit { to, flags, issuer, taxon, seq } => {
				if flags & 1 == 1 {
					return None;
				}
				let col = match self.cmap.get(&(*issuer, *taxon)) {
					Some(c) => *c,
					None => {
						self.created += 1;
						let c = cid(self.created);
						self.cols.insert(c, Col { owner: 5, next: 0, xrpl: true, bridged: true, tokens: Default::default() });
						self.cmap.insert((*issuer, *taxon), c);
						c
					},
				};
				let c = self.cols.get_mut(&col)?;
				c.tokens.entry(*seq).or_insert(*to);
				self.map.insert((col, *seq), xid(*flags, *issuer, *taxon, *seq));
			},
		}
		Some(())
	}
}
fn origin(root: bool) -> RuntimeOrigin {
	if root {
		RuntimeOrigin::root()
	} else {
		RuntimeOrigin::signed(acc(3))
	}
}
/// The pallet's collection key, through its encoding.
fn xcol<T: Decode>(issuer: u8, taxon: u32) -> T {
	T::decode(&mut &(H160([issuer; 20]), taxon).encode()[..]).unwrap()
}
fn exec(op: &Op) -> Result<(), String> {
	let s = |w: &usize| RuntimeOrigin::signed(acc(*w));
	call(|| match op {
		Op::SetRelayer { root, who } => Xls20::set_relayer(origin(*root), acc(*who)),
		Op::SetFee { root, fee } => Xls20::set_xls20_fee(origin(*root), *fee),
		Op::Enable { who, col } => Xls20::enable_xls20_compatibility(s(who), *col),
		Op::Mint { who, col, q, to } => Nft::mint(s(who), *col, *q, to.map(acc)),
		Op::Burn { who, tok } => Nft::burn(s(who), *tok),
		Op::ReRequest { who, col, serials } => Xls20::re_request_xls20_mint(s(who), *col, BoundedVec::truncate_from(serials.clone())),
		Op::Fulfill { who, col, list } => Xls20::fulfill_xls20_mint(s(who), *col, BoundedVec::truncate_from(list.iter().map(|(s, v)| (*s, [*v; 32])).collect())),
		Op::MapCols { root, issuer, taxon, col } => Xls20::set_collection_mappings(origin(*root), vec![(*col, xcol(*issuer, *taxon))]),
		Op::Deposit { to, flags, issuer, taxon, seq } => <Xls20 as Xls20Ext>::deposit_xls20_token(&acc(*to), xid(*flags, *issuer, *taxon, *seq)).map(|_| ()).map_err(|e| e.1),
	})
}
const SERIALS: [u32; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 3429];
fn check(m: &M) -> Check {
	for n in 1..m.created + 2 {
		let id = cid(n);
		let got = Nft::get_collection_info(id);
		let Some(c) = m.cols.get(&id) else {
			req!(got.is_err(), "collections: collection {id} appeared from nowhere");
			continue;
		};
		let g = got.map_err(|_| format!("collections: collection {id} is gone"))?;
		req!(g.owner == acc(c.owner) && g.cross_chain_compatibility.xrpl == c.xrpl && (g.origin_chain == OriginChain::XRPL) == c.bridged, "collection: {id} owner, origin or compatibility");
		for s in SERIALS {
			req!(<Nft as NFTExt>::get_token_owner(&(id, s)) == c.tokens.get(&s).map(|o| acc(*o)), "token owner: of ({id},{s}) is not {:?}", c.tokens.get(&s));
			let x = <Xls20 as Xls20Ext>::get_xls20_token_id((id, s));
			req!(x == m.map.get(&(id, s)).cloned(), "link: XLS-20 id of ({id},{s}) is {x:02x?}, expected {:02x?}", m.map.get(&(id, s)));
		}
		let (iss, _) = <Nft as NFTExt>::get_collection_issuance(id).unwrap();
		req!(iss as usize == c.tokens.len(), "issuance: of {id}");
	}
	let links: BTreeMap<Vec<u8>, u32> = pallet_xls20::CollectionMapping::<Test>::iter().map(|(k, c)| (k.encode(), c)).collect();
	let want: BTreeMap<Vec<u8>, u32> = m.cmap.iter().map(|((i, t), c)| ((H160([*i; 20]), *t).encode(), *c)).collect();
	req!(links == want, "collection link: issuer/taxon links are {links:?}, expected {want:?}");
	for w in 0..N {
		let b = AssetsExt::balance(XLSFEE, &acc(w));
		req!(b == m.bal[w], "fee: account {w} has {b}, expected {}", m.bal[w]);
	}
	Ok(())
}
struct X {
	/// only many tokens at a time
	many: bool,
}
impl Spec for X {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		2
	}
	fn init(&self, i: usize) -> M {
		System::set_block_number(1);
		pallet_nft::NextCollectionId::<Test>::put(1);
		let _ = Assets::force_create(RuntimeOrigin::root(), XLSFEE, acc(0), true, 1);
		let mut m = M { cols: Default::default(), created: 0, relayer: None, fee: 0, map: Default::default(), cmap: Default::default(), bal: [100_000_000_000, 14, 0, 20, 20, 0, 0, 0] };
		for w in 0..N {
			if m.bal[w] > 0 {
				AssetsExt::mint_into(XLSFEE, &acc(w), m.bal[w]).unwrap();
			}
		}
		for x in [true, false] {
			m.created += 1;
			Nft::create_collection(RuntimeOrigin::signed(acc(0)), BoundedVec::truncate_from(b"c".to_vec()), 0, None, None, MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), None, CrossChainCompatibility { xrpl: x }).unwrap();
			Nft::toggle_public_mint(RuntimeOrigin::signed(acc(0)), cid(m.created), true).unwrap();
			m.cols.insert(cid(m.created), Col { owner: 0, next: 0, xrpl: x, bridged: false, tokens: Default::default() });
		}
		let mut run = |op: Op| {
			m.apply(&op).expect("setup refused by the reference");
			exec(&op).expect("setup");
		};
		if i == 1 {
			run(Op::SetRelayer { root: true, who: 3 });
			run(Op::Mint { who: 1, col: cid(1), q: 3, to: None });
			run(Op::SetFee { root: true, fee: 5 });
			run(Op::Fulfill { who: 3, col: cid(1), list: vec![(1, 1)] });
			run(Op::Deposit { to: 2, flags: 12, issuer: 1, taxon: 146999694, seq: 3429 });
		}
		m
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut v = vec![];
		if self.many {
			for &col in m.cols.keys() {
				for q in [99, 100, 101, 255, 256, 257, 500, 501, 1000, 1001] {
					v.push(Op::Mint { who: 0, col, q, to: None });
				}
			}
			v.push(Op::SetFee { root: true, fee: 3 });
			return v;
		}
		for who in [3, 4] {
			v.push(Op::SetRelayer { root: true, who });
		}
		v.push(Op::SetRelayer { root: false, who: 4 });
		for fee in [0, 5, 7, (1 << 32) + 3] {
			v.push(Op::SetFee { root: true, fee });
		}
		v.push(Op::SetFee { root: false, fee: 1 });
		for &col in m.cols.keys().collect::<Vec<_>>() {
			for who in [0, 1, 5] {
				v.push(Op::Enable { who, col });
				for serials in [vec![], vec![0], vec![0, 2], vec![0, 1, 2], vec![2, 6], vec![3429]] {
					if who == m.cols[&col].owner || serials.len() == 2 {
						v.push(Op::ReRequest { who, col, serials });
					}
				}
			}
			for who in [0, 1] {
				for (q, to) in [(1, None), (2, None), (3, None), (1, Some(0)), (2, Some(2))] {
					v.push(Op::Mint { who, col, q, to });
				}
			}
			for (s, o) in m.cols[&col].tokens.iter().take(2) {
				v.push(Op::Burn { who: *o, tok: (col, *s) });
			}
			for who in [0, 3, 4] {
				for list in [vec![], vec![(0, 1)], vec![(0, 2), (2, 3)], vec![(2, 4), (2, 5)], vec![(0, 6), (6, 7)], vec![(0, 1), (1, 2)], vec![(3429, 9)]] {
					if Some(who) == m.relayer || list.len() == 1 {
						v.push(Op::Fulfill { who, col, list });
					}
				}
			}
			if m.cols[&col].bridged {
				v.push(Op::MapCols { root: true, issuer: 2, taxon: 7, col });
				v.push(Op::MapCols { root: false, issuer: 2, taxon: 7, col });
			}
		}
		for (flags, issuer, taxon, seq) in [(12, 1, 146999694, 3429), (8, 1, 146999694, 2), (0, 2, 7, 0), (13, 1, 146999694, 4), (1, 3, 0, 4), (8, 3, 0, 5), (0xfffe, 2, 7, 1)] {
			v.push(Op::Deposit { to: 2, flags, issuer, taxon, seq });
			if seq < 3 {
				v.push(Op::Deposit { to: 1, flags, issuer, taxon, seq });
			}
		}
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let h = shim::ext::state_hash();
		let mut want = m.clone();
		let ok = want.apply(op).is_some();
		System::reset_events();
		let r = exec(op);
		let kind = format!("{op:?}").split([' ', '{']).next().unwrap().to_string();
		if let Err(e) = &r {
			req!(shim::ext::state_hash() == h, "atomicity: refused {kind} ({e}) changed the state");
		}
		match (&r, ok) {
			(Ok(()), false) => return Err(format!("admission: {kind} was accepted but must be refused")),
			(Err(e), true) => return Err(format!("admission: {kind} was refused with {e} but must succeed")),
			(Ok(()), true) => *m = want,
			_ => {},
		}
		// the request the off-chain relayer acts on names exactly the tokens paid for, with their URIs
		let mut reqs = vec![];
		for e in System::events() {
			if let RuntimeEvent::Xls20(pallet_xls20::Event::Xls20MintRequest { collection_id, serial_numbers, token_uris }) = e.event {
				req!(serial_numbers.len() == token_uris.len(), "request: {} serials with {} URIs", serial_numbers.len(), token_uris.len());
				for (s, u) in serial_numbers.iter().zip(token_uris) {
					req!(u == format!("https://x/{s}").into_bytes(), "request: URI of {s} is {:?}", String::from_utf8_lossy(&u));
					reqs.push((collection_id, *s));
				}
			}
		}
		let exp: Vec<(u32, u32)> = match (op, r.is_ok()) {
			(Op::Mint { col, q, .. }, true) if m.cols[col].xrpl => (m.cols[col].next - q..m.cols[col].next).map(|s| (*col, s)).collect(),
			(Op::ReRequest { col, serials, .. }, true) => serials.iter().map(|s| (*col, *s)).collect(),
			_ => vec![],
		};
		let uris_ok = !matches!(op, Op::ReRequest { col, .. } if m.cols.get(col).map_or(false, |c| c.bridged));
		req!(!uris_ok || r.is_err() || reqs == exp, "request: {kind} asked the relayer for {reqs:?}, expected {exp:?}");
		check(m)?;
		Ok(format!("{kind}: {}", r.err().unwrap_or("ok".into())))
	}
	fn invariant(&self, m: &M) -> Check {
		check(m)
	}
}
pub fn xls20(c: &mut Ctx) {
	c.assume("set_collection_mappings is only used for collections that came from XRPL");
	let d = c.pick(3, 4);
	c.bfs("XLS-20", &X { many: false }, depth(d));
	limits(2000, 1000);
	c.bfs("XLS-20, many at a time", &X { many: true }, depth(3));
	limits(MAX_TOKENS, MINT_LIMIT);
	// token id decoding: all flag words, all issuers by byte position, a grid of taxons and sequences
	let g: Vec<u32> = (0..32).flat_map(|b| [1u32 << b, (1u32 << b) - 1, !(1u32 << b)]).chain([0, 7, 3429, 146999694, u32::MAX]).collect();
	let n = c.pick(24, g.len());
	let dom: Vec<(u16, u32, u32)> = (0..=u16::MAX).map(|f| (f, 146999694, 3429)).chain(g.iter().flat_map(|t| g.iter().take(n).map(move |s| (12, *t, *s)))).collect();
	c.enumerate("token id decoding", dom.into_iter(), |(f, t, s)| {
		let x = types::Xls20Token::from(xid(*f, 0x42, *t, *s));
		req!(x.flags == *f && x.is_burnable() == (f % 2 == 1), "decode: flags {f:#06x} read as {:#06x}, burnable {}", x.flags, x.is_burnable());
		req!(x.issuer == H160([0x42; 20]) && x.taxon == *t && x.sequence == *s, "decode: taxon {t} sequence {s} read as {} {}", x.taxon, x.sequence);
		req!(x.transfer_fee.deconstruct() == 3140, "decode: transfer fee {:?}", x.transfer_fee);
		Ok("ok".into())
	});
}

// ------------------------------------------------------------------ NFI
type Tok = (u64, u32, u32); // chain, collection, serial
#[derive(Clone, Hash, Debug)]
pub struct F {
	nfts: BTreeMap<u32, usize>,
	next: u32,
	sfts: u32,
	owner: usize,
	enabled: BTreeSet<u32>,
	fee: Option<(u32, u128)>,
	pot: bool,
	relayer: Option<usize>,
	data: BTreeMap<Tok, u8>,
	bal: BTreeMap<(u32, usize), u128>,
}
#[derive(Clone, Debug)]
enum G {
	SetRelayer { root: bool, who: usize },
	SetFeeTo { root: bool, on: bool },
	SetFee { root: bool, fee: Option<(u32, u128)> },
	Enable { who: usize, col: u32 },
	Manual { who: usize, tok: Tok },
	ManualBad { who: usize },
	Submit { who: usize, tok: Tok, d: u8 },
	Mint { who: usize, q: u32, to: Option<usize> },
	Burn { who: usize, s: u32 },
	SftCreate { who: usize, to: Option<usize> },
	SetOwner { new: usize },
}
const HERE: u64 = 7672;
type MB = MaxByteLength;
fn token(t: &Tok) -> MultiChainTokenId<MB> {
	if t.0 == HERE {
		MultiChainTokenId { chain_id: HERE, collection_id: GenericCollectionId::U32(t.1), serial_number: GenericSerialNumber::U32(t.2) }
	} else {
		MultiChainTokenId { chain_id: t.0, collection_id: GenericCollectionId::H160(H160::from_low_u64_be(t.1 as u64)), serial_number: GenericSerialNumber::Bytes(BoundedVec::truncate_from(t.2.to_be_bytes().to_vec())) }
	}
}
fn data(d: u8) -> NFIDataType<MaxDataLength> {
	NFIDataType::NFI(NFIMatrix { metadata_link: BoundedVec::truncate_from(vec![d; 5]), verification_hash: H256([d; 32]) })
}
fn c_nft() -> u32 {
	cid(1)
}
fn c_sft() -> u32 {
	cid(2)
}
impl F {
	fn exists(&self, t: &Tok) -> bool {
		(t.1 == c_nft() && self.nfts.contains_key(&t.2)) || (t.1 == c_sft() && t.2 < self.sfts)
	}
	fn pay(&mut self, who: usize, n: u32) -> Option<()> {
		let Some((a, amt)) = self.fee else { return Some(()) };
		let f = amt.checked_mul(n as u128)?;
		// 0.5% to the fee pot when one is configured, rounded to nearest
		let net = if self.pot { (f * 5 + 499) / 1000 } else { 0 };
		let b = self.bal.get_mut(&(a, who))?;
		*b = b.checked_sub(f)?;
		*self.bal.get_mut(&(a, 6))? += net;
		*self.bal.get_mut(&(a, 7))? += f - net;
		Some(())
	}
	fn apply(&mut self, op: &G) -> Option<()> {
		match op {
			G::SetRelayer { root, who } => {
				root.then_some(())?;
				self.relayer = Some(*who);
			},
			G::SetFeeTo { root, on } => {
				root.then_some(())?;
				self.pot = *on;
			},
			G::SetFee { root, fee } => {
				if !root || fee.map_or(false, |f| f.1 == 0) {
					return None;
				}
				self.fee = *fee;
			},
			G::Enable { who, col } => {
				let ok = (*col == c_nft() && *who == self.owner) || (*col == c_sft() && *who == 0);
				ok.then_some(())?;
				self.enabled.insert(*col);
			},
			G::Manual { who, tok } => {
				if tok.0 == HERE {
					let owner = if tok.1 == c_nft() { self.nfts.get(&tok.2).map_or(false, |o| o == who || self.owner == *who) } else { tok.1 == c_sft() && *who == 0 };
					if !self.enabled.contains(&tok.1) || !owner {
						return None;
					}
				}
				self.pay(*who, 1)?;
			},
			G::ManualBad { .. } => return None,
			G::Submit { who, tok, d } => {
				if self.relayer != Some(*who) || (tok.0 == HERE && (!self.enabled.contains(&tok.1) || !self.exists(tok))) {
					return None;
				}
				self.data.insert(*tok, *d);
			},
			G::Mint { who, q, to } => {
				if self.next + q > MAX_TOKENS || self.nfts.len() as u32 + q >= MAX_TOKENS {
					return None;
				}
				for s in self.next..self.next + q {
					self.nfts.insert(s, to.unwrap_or(*who));
				}
				self.next += q;
				if self.enabled.contains(&c_nft()) {
					self.pay(*who, *q)?;
				}
			},
			G::Burn { who, s } => {
				if self.nfts.get(s) != Some(who) {
					return None;
				}
				self.nfts.remove(s);
				self.data.remove(&(HERE, c_nft(), *s));
			},
			G::SftCreate { who, .. } => {
				if *who != 0 || self.sfts >= 5 {
					return None;
				}
				self.sfts += 1;
				if self.enabled.contains(&c_sft()) {
					self.pay(*who, 1)?;
				}
			},
			G::SetOwner { new } => self.owner = *new,
		}
		Some(())
	}
}
fn gexec(op: &G, m: &F) -> Result<(), String> {
	let s = |w: &usize| RuntimeOrigin::signed(acc(*w));
	call(|| match op {
		G::SetRelayer { root, who } => Nfi::set_relayer(origin(*root), acc(*who)),
		G::SetFeeTo { root, on } => Nfi::set_fee_to(origin(*root), on.then(|| acc(6))),
		G::SetFee { root, fee } => Nfi::set_fee_details(origin(*root), NFISubType::NFI, fee.map(|(asset_id, amount)| FeeDetails { asset_id, amount, receiver: acc(7) })),
		G::Enable { who, col } => Nfi::enable_nfi_for_trn_collection(s(who), *col, NFISubType::NFI),
		G::Manual { who, tok } => Nfi::manual_data_request(s(who), token(tok), NFISubType::NFI),
		G::ManualBad { who } => Nfi::manual_data_request(s(who), MultiChainTokenId { chain_id: HERE, collection_id: GenericCollectionId::U64(c_nft() as u64), serial_number: GenericSerialNumber::U32(0) }, NFISubType::NFI),
		G::Submit { who, tok, d } => Nfi::submit_nfi_data(s(who), token(tok), data(*d)),
		G::Mint { who, q, to } => Nft::mint(s(who), c_nft(), *q, to.map(acc)),
		G::Burn { who, s: n } => Nft::burn(s(who), (c_nft(), *n)),
		G::SftCreate { who, to } => Sft::create_token(s(who), c_sft(), BoundedVec::truncate_from(b"t".to_vec()), 3, None, to.map(acc)),
		G::SetOwner { new } => Nft::set_owner(s(&m.owner), c_nft(), acc(*new)),
	})
}
fn gtoks() -> Vec<Tok> {
	let mut v = vec![(1, 5, 0), (1, 5, 1), (2, 5, 0)];
	for s in 0..5 {
		v.push((HERE, c_nft(), s));
		v.push((HERE, c_sft(), s));
	}
	v.push((1, c_nft(), 0));
	v
}
fn gcheck(m: &F) -> Check {
	for t in gtoks() {
		let d = pallet_nfi::NfiData::<Test>::get(token(&t), NFISubType::NFI);
		req!(d == m.data.get(&t).map(|d| data(*d)), "nfi data: of {t:?} is {d:?}, expected {:?}", m.data.get(&t));
	}
	for (k, v) in &m.bal {
		let b = AssetsExt::balance(k.0, &acc(k.1));
		req!(b == *v, "nfi fee: account {} has {b} of asset {}, expected {v}", k.1, k.0);
	}
	for s in 0..MAX_TOKENS {
		req!(<Nft as NFTExt>::get_token_owner(&(c_nft(), s)) == m.nfts.get(&s).map(|o| acc(*o)), "token owner: of {s}");
	}
	Ok(())
}
struct Y;
impl Spec for Y {
	type R = F;
	type Op = G;
	fn inits(&self) -> usize {
		2
	}
	fn init(&self, i: usize) -> F {
		System::set_block_number(1);
		pallet_nft::NextCollectionId::<Test>::put(1);
		let mut m = F { nfts: Default::default(), next: 0, sfts: 0, owner: 0, enabled: Default::default(), fee: None, pot: false, relayer: None, data: Default::default(), bal: Default::default() };
		for a in [XLSFEE, OTHER] {
			let _ = Assets::force_create(RuntimeOrigin::root(), a, acc(0), true, 1);
			for (w, b) in [(0, 5000), (1, 2100), (2, 700), (6, 10), (7, 10)] {
				AssetsExt::mint_into(a, &acc(w), b).unwrap();
				m.bal.insert((a, w), b);
			}
		}
		let s = || RuntimeOrigin::signed(acc(0));
		let uri = || MetadataScheme::try_from(b"https://x/".as_slice()).unwrap();
		Nft::create_collection(s(), BoundedVec::truncate_from(b"c".to_vec()), 0, None, None, uri(), None, CrossChainCompatibility { xrpl: false }).unwrap();
		Nft::toggle_public_mint(s(), c_nft(), true).unwrap();
		Sft::create_collection(s(), BoundedVec::truncate_from(b"s".to_vec()), None, uri(), None).unwrap();
		let mut run = |op: G| {
			let h = m.clone();
			m.apply(&op).expect("setup refused by the reference");
			gexec(&op, &h).expect("setup");
		};
		run(G::Mint { who: 1, q: 2, to: None });
		if i == 1 {
			run(G::SftCreate { who: 0, to: None });
			run(G::Enable { who: 0, col: c_nft() });
			run(G::Enable { who: 0, col: c_sft() });
			run(G::SetRelayer { root: true, who: 3 });
			run(G::SetFee { root: true, fee: Some((OTHER, 500)) });
			run(G::SetFeeTo { root: true, on: true });
			run(G::Submit { who: 3, tok: (HERE, c_nft(), 0), d: 1 });
			run(G::Submit { who: 3, tok: (HERE, c_nft(), 1), d: 2 });
			run(G::Submit { who: 3, tok: (1, 5, 0), d: 3 });
			run(G::Submit { who: 3, tok: (1, c_nft(), 0), d: 4 });
		}
		m
	}
	fn ops(&self, m: &F) -> Vec<G> {
		let mut v = vec![];
		for root in [true, false] {
			v.push(G::SetRelayer { root, who: 4 });
			v.push(G::SetFeeTo { root, on: root != m.pot });
			for fee in [None, Some((OTHER, 500)), Some((XLSFEE, 101)), Some((OTHER, 0))] {
				v.push(G::SetFee { root, fee });
			}
		}
		v.push(G::SetRelayer { root: true, who: 3 });
		for who in 0..3 {
			for col in [c_nft(), c_sft(), cid(9)] {
				v.push(G::Enable { who, col });
			}
			for tok in [(HERE, c_nft(), 0), (HERE, c_nft(), 4), (HERE, c_sft(), 0), (HERE, cid(9), 0), (1, 5, 1)] {
				v.push(G::Manual { who, tok });
			}
			for (q, to) in [(1, None), (2, None), (3, None), (1, Some(0)), (2, Some(2))] {
				v.push(G::Mint { who, q, to });
			}
			v.push(G::ManualBad { who });
			for s in 0..3 {
				v.push(G::Burn { who, s });
			}
			v.push(G::SftCreate { who, to: (who == 1).then_some(2) });
			v.push(G::SftCreate { who, to: Some(1) });
		}
		for who in [0, 3, 4] {
			for tok in [(HERE, c_nft(), 0), (HERE, c_nft(), 3), (HERE, c_sft(), 0), (HERE, c_sft(), 1), (1, 5, 0), (2, 5, 0), (HERE, cid(9), 0)] {
				v.push(G::Submit { who, tok, d: 10 + who as u8 });
			}
		}
		v.push(G::SetOwner { new: 2 });
		v
	}
	fn step(&self, m: &mut F, op: &G) -> Step {
		let h = shim::ext::state_hash();
		let mut want = m.clone();
		let ok = want.apply(op).is_some();
		System::reset_events();
		let r = gexec(op, m);
		let kind = format!("{op:?}").split([' ', '{']).next().unwrap().to_string();
		if let Err(e) = &r {
			req!(shim::ext::state_hash() == h, "atomicity: refused {kind} ({e}) changed the state");
		}
		let before = m.data.clone();
		match (&r, ok) {
			(Ok(()), false) => return Err(format!("admission: {kind} was accepted but must be refused")),
			(Err(e), true) => return Err(format!("admission: {kind} was refused with {e} but must succeed")),
			(Ok(()), true) => *m = want,
			_ => {},
		}
		// data is requested for exactly the tokens the operation is about
		let mut reqs = vec![];
		for e in System::events() {
			match e.event {
				RuntimeEvent::Nfi(pallet_nfi::Event::DataRequestNew { token_id, .. }) => reqs.push((token_id, false)),
				RuntimeEvent::Nfi(pallet_nfi::Event::DataRequestExisting { token_id, .. }) => reqs.push((token_id, true)),
				_ => {},
			}
		}
		let exp: Vec<Tok> = match op {
			G::Mint { q, .. } if r.is_ok() && m.enabled.contains(&c_nft()) => (m.next - q..m.next).map(|s| (HERE, c_nft(), s)).collect(),
			G::SftCreate { .. } if r.is_ok() && m.enabled.contains(&c_sft()) => vec![(HERE, c_sft(), m.sfts - 1)],
			G::Manual { tok, .. } => vec![*tok],
			_ => vec![],
		};
		let exp: Vec<_> = exp.iter().map(|t| (token(t), before.contains_key(t))).collect();
		req!(r.is_err() || reqs == exp, "requests: {kind} asked for {reqs:?}, expected {exp:?}");
		gcheck(m)?;
		Ok(format!("{kind}: {}", r.err().unwrap_or("ok".into())))
	}
	fn invariant(&self, m: &F) -> Check {
		gcheck(m)
	}
}
pub fn nfi(c: &mut Ctx) {
	c.assume("the network share of the data fee is 0.5%, as in the runtime");
	let d = c.pick(3, 5);
	c.bfs("NFI", &Y, depth(d));
}
