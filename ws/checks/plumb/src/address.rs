//! R03: the addresses assets and collections have in the EVM, and its chain id.
use codec::Encode;
use explore::*;
use frame_support::traits::Get;
use precompile_utils::{Address, ErcIdConversion};
use rt::{impls::EthereumEventRouter, sim::*, *};
use seed_pallet_common::EthereumEventRouter as _;
use sp_core::H160;
use std::collections::BTreeMap;
const CODE: &[u8] = b"TRN Asset Precompile";
const PEG: u64 = 0xe20;
const NFT_PEG: u64 = 0xe22;
const WORLD: u32 = 100;
fn to_evm(id: u32, p: &[u8; 4]) -> H160 {
	<Runtime as ErcIdConversion<u32>>::runtime_id_to_evm_id(id, p).into()
}
fn to_id(a: H160, p: &[u8; 4]) -> Option<u32> {
	<Runtime as ErcIdConversion<u32>>::evm_id_to_runtime_id(Address(a), p)
}
fn convert(c: &(u32, u8)) -> Step {
	let (id, p) = (c.0, [c.1; 4]);
	let a = to_evm(id, &p);
	req!(a == token(c.1, id), "address: id {id} with prefix {p:?} is at {a:?}");
	req!(to_id(a, &p) == Some(id), "id: {a:?} is of {:?}, not {id}", to_id(a, &p));
	for q in [0xaa, 0xbb, 0xcc, 0xff, 0] {
		let got = to_id(a, &[q; 4]);
		req!(got == (q == c.1).then_some(id), "prefix: {a:?} as one of {q:x} is of {got:?}");
	}
	for i in 0..32 {
		let mut b = a;
		b.0[i / 8] ^= 1 << (i % 8);
		req!(to_id(b, &p).is_none(), "prefix: {b:?} as one of {:x} is of {:?}", c.1, to_id(b, &p));
		let mut q = p;
		q[i / 8] ^= 1 << (i % 8);
		req!(to_id(a, &q).is_none(), "prefix: {a:?} as one of {q:?} is of {:?}", to_id(a, &q));
		req!(to_evm(id, &q).0[..4] == q && to_evm(id, &q).0[4..] == a.0[4..], "address: id {id} with prefix {q:?} is at {:?}", to_evm(id, &q));
	}
	Ok(format!("{:x}", c.1))
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
	Asset(usize),
	Nft(usize),
	Sft(usize),
	/// through the precompiles
	NftCall(usize),
	SftCall(usize),
	/// a pool of XRP and the last asset
	Pool,
	/// tokens of a new contract arrive from Ethereum
	Coin,
	Token,
	ChainId(usize, u64),
}
#[derive(Clone, Debug, Hash, Default)]
pub struct M {
	/// next ids, of assets and of collections
	next: [u32; 2],
	/// what there is at which address; whether its name or owner is known
	at: BTreeMap<H160, Option<Vec<u8>>>,
	/// the last asset, and whether it has a pool
	last: Option<(u32, bool)>,
	/// tokens from Ethereum
	eth: u64,
	chain: u64,
}
struct S {
	starts: Vec<[u32; 2]>,
}
fn put(pallet: &str, item: &str, v: u32) {
	shim::ext::set(&frame_support::storage_prefix(pallet.as_bytes(), item.as_bytes()), &v.encode());
}
fn id(next: u32) -> Option<u32> {
	(next < (1 << 22) - 1).then(|| next * 1024 + WORLD)
}
fn codes() -> BTreeMap<H160, Vec<u8>> {
	pallet_evm::AccountCodes::<Runtime>::iter().collect()
}
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		self.starts.len()
	}
	fn init(&self, i: usize) -> M {
		genesis(3, 1_000_000_000);
		use pallet_erc20_peg::Call as P;
		dispatch(root(), P::set_erc20_peg_address { eth_address: h(PEG) }).unwrap();
		dispatch(root(), P::activate_deposits { activate: true }).unwrap();
		dispatch(root(), pallet_nft_peg::Call::set_contract_address { contract: h(NFT_PEG) }).unwrap();
		put("AssetsExt", "NextAssetId", self.starts[i][0]);
		put("Nft", "NextCollectionId", self.starts[i][1]);
		M { next: self.starts[i], chain: pallet_evm_chain_id::ChainId::<Runtime>::get(), ..Default::default() }
	}
	fn ops(&self, m: &M) -> Vec<Op> {
		let mut v = vec![Op::Asset(0), Op::Nft(1), Op::Sft(1), Op::NftCall(2), Op::SftCall(2), Op::Pool, Op::Coin, Op::Token];
		if m.at.len() < 2 {
			v.extend([Op::ChainId(0, 5), Op::ChainId(9, 1 << 40), Op::ChainId(9, u64::MAX)]);
		}
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		let h0 = shim::ext::state_hash();
		let before = codes();
		let scheme = || seed_primitives::MetadataScheme::try_from(b"https://a.b/".as_slice()).unwrap();
		// 0: assets, 1: collections of NFTs, 2: of SFTs
		let (class, want, name, ok) = match op {
			Op::Asset(i) => {
				let name = format!("asset {}", m.at.len()).into_bytes();
				let r = dispatch(
					signed(user(*i)),
					pallet_assets_ext::Call::create_asset { name: name.clone(), symbol: b"A".to_vec(), decimals: 6, min_balance: None, owner: None },
				);
				(0, true, Some(enc(&[V::S(name)])), r.is_ok())
			},
			Op::Nft(i) => {
				let name = format!("nft {}", m.at.len()).into_bytes();
				let r = dispatch(
					signed(user(*i)),
					pallet_nft::Call::create_collection {
						name: name.clone().try_into().unwrap(),
						initial_issuance: 1,
						max_issuance: None,
						token_owner: None,
						metadata_scheme: scheme(),
						royalties_schedule: None,
						cross_chain_compatibility: Default::default(),
					},
				);
				(1, true, Some(enc(&[V::S(name)])), r.is_ok())
			},
			Op::Sft(i) => {
				let r = dispatch(
					signed(user(*i)),
					pallet_sft::Call::create_collection {
						collection_name: b"s".to_vec().try_into().unwrap(),
						collection_owner: None,
						metadata_scheme: scheme(),
						royalties_schedule: None,
					},
				);
				(2, true, Some(enc(&[V::A(user(*i))])), r.is_ok())
			},
			Op::NftCall(i) => {
				let name = format!("nft {}", m.at.len()).into_bytes();
				let o = tx(
					user(0),
					h(1721),
					"initializeCollection(address,bytes,uint32,bytes,address[],uint32[])",
					&[V::A(user(*i)), V::S(name.clone()), n(9), V::S(b"https://a.b/".to_vec()), V::L(vec![]), V::L(vec![])],
				);
				if let (true, Some(x)) = (o.ok(), id(m.next[1])) {
					req!(o.out == enc(&[V::A(erc721(x)), n(x)]), "told: {op:?} returns {}", hex::encode(&o.out));
				}
				(1, true, Some(enc(&[V::S(name)])), o.ok())
			},
			Op::SftCall(i) => {
				let o = tx(
					user(0),
					h(1731),
					"initializeCollection(address,bytes,bytes,address[],uint32[])",
					&[V::A(user(*i)), V::S(b"s".to_vec()), V::S(b"https://a.b/".to_vec()), V::L(vec![]), V::L(vec![])],
				);
				if let (true, Some(x)) = (o.ok(), id(m.next[1])) {
					req!(o.out == enc(&[V::A(erc1155(x)), n(x)]), "told: {op:?} returns {}", hex::encode(&o.out));
				}
				(2, true, Some(enc(&[V::A(user(*i))])), o.ok())
			},
			Op::Pool => {
				let Some((a, pool)) = m.last else { return Ok("none".into()) };
				if pool {
					return Ok("again".into());
				}
				if bal(a, user(0)) == 0 {
					fund(a, user(0), 100_000);
				}
				let r = dispatch(
					signed(user(0)),
					pallet_dex::Call::add_liquidity {
						token_a: a,
						token_b: XRP,
						amount_a_desired: 50_000,
						amount_b_desired: 50_000,
						amount_a_min: 1,
						amount_b_min: 1,
						to: None,
						deadline: None,
					},
				);
				(0, true, None, r.is_ok())
			},
			Op::Coin => {
				let data = enc(&[V::A(h(0xc000 + m.eth)), n(7), V::A(user(1))]);
				let r = EthereumEventRouter::route(&h(PEG), &at_peg(b"erc20peg"), &data);
				(0, true, None, r.is_ok())
			},
			Op::Token => {
				let mut data = vec![];
				for x in [n(1), n(128), n(192), V::A(user(1)), n(1), V::A(h(0xd000 + m.eth)), n(1), n(32), n(1), n(3)] {
					data.extend(enc(&[x]));
				}
				let r = EthereumEventRouter::route(&h(NFT_PEG), &at_peg(b"rn/nftpg"), &data);
				(1, true, None, r.is_ok())
			},
			Op::ChainId(i, x) => {
				let o = if *i == 9 { root() } else { signed(user(*i)) };
				let r = dispatch(o, pallet_evm_chain_id::Call::set_chain_id { chain_id: *x });
				req!(r.is_ok() == (*i == 9), "set: {op:?}: {r:?}");
				if r.is_ok() {
					m.chain = *x;
				} else {
					req!(shim::ext::state_hash() == h0, "changed: {op:?} is refused");
				}
				req!(codes() == before, "code: {op:?} changes code");
				let got = <<Runtime as pallet_evm::Config>::ChainId as Get<u64>>::get();
				req!(got == m.chain, "chain: {got} after {op:?}, not {}", m.chain);
				return Ok(kind(op));
			},
		};
		let c = usize::from(class > 0);
		let new = id(m.next[c]);
		req!(ok == (want && new.is_some()), "done: {op:?} with next ids {:?}: {ok}", m.next);
		let now = codes();
		let added: Vec<_> = now.iter().filter(|x| !before.contains_key(x.0)).collect();
		let changed = before.iter().any(|x| now.get(x.0) != Some(x.1));
		req!(!changed, "code: {op:?} changes code there was");
		let Some(new) = new.filter(|_| ok) else {
			req!(added.is_empty(), "code: refused {op:?} puts code at {added:?}");
			return Ok(format!("{} no id", kind(op)));
		};
		let a = [erc20(new), erc721(new), erc1155(new)][class];
		req!(added.len() == 1 && *added[0].0 == a && added[0].1 == CODE, "code: {op:?} puts code at {added:?}, not at {a:?}");
		m.next[c] += 1;
		m.at.insert(a, name);
		match op {
			Op::Asset(_) => m.last = Some((new, false)),
			Op::Pool => m.last = m.last.map(|x| (x.0, true)),
			Op::Coin | Op::Token => m.eth += 1,
			_ => {},
		}
		Ok(kind(op))
	}
	fn invariant(&self, m: &M) -> Result<(), String> {
		for (a, know) in &m.at {
			let sig = if a.0[0] == 0xbb { "owner()" } else { "name()" };
			let got = view(*a, sig, &[]);
			match know {
				Some(x) => req!(got.as_ref() == Ok(x), "reached: {sig} at {a:?} gives {got:?}"),
				None => req!(matches!(&got, Ok(x) if x.len() >= 64), "reached: {sig} at {a:?} gives {got:?}"),
			}
			// no more than that stands for the id
			for p in [0xaa, 0xbb, 0xcc] {
				let mut b = *a;
				b.0[..4].copy_from_slice(&[p; 4]);
				let got = view(b, if p == 0xbb { "owner()" } else { "name()" }, &[]);
				req!(m.at.contains_key(&b) || got.as_ref().map_or(true, |x| x.is_empty()), "stranger: {b:?} gives {got:?}");
			}
		}
		Ok(())
	}
}
fn at_peg(id: &[u8; 8]) -> H160 {
	let mut b = [0u8; 20];
	b[..4].copy_from_slice(b"modl");
	b[4..12].copy_from_slice(id);
	H160(b)
}
pub fn run(ctx: &mut Ctx) {
	let mut ids = std::collections::BTreeSet::new();
	for i in 0..32u32 {
		for j in 0..32u32 {
			let x = (1u32 << i) | (1 << j);
			ids.extend([x, !x, x.wrapping_sub(1), x.wrapping_mul(0x0102_0408)]);
		}
	}
	ids.extend((0..4096).chain((0..1 << 16).map(|x| x << 10 | 100)));
	if ctx.thorough() {
		ids.extend((0..1u32 << 22).map(|x| x << 10 | 100));
	}
	let all: Vec<_> = ids.iter().flat_map(|i| [0xaa, 0xbb, 0xcc].map(|p| (*i, p))).collect();
	ctx.enumerate("addresses", all.into_iter(), convert);
	let end = (1 << 22) - 1;
	let starts = vec![[1, 1], [63, 64], [1 << 14, 1 << 14], [1 << 14, 1 << 21], [end - 1, end - 2], [end, 1 << 16]];
	let d = ctx.pick(4, 5);
	ctx.bfs("creation", &S { starts }, depth(d));
}
