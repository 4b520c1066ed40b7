//! R01: who handles what arrives from Ethereum, and pings sent there and back.
use explore::*;
use rt::{impls::EthereumEventRouter, sim::*, *};
use seed_pallet_common::{EthereumEventRouter as _, EventRouterError};
use sp_core::{H160, U256};
use std::collections::BTreeMap;
const ERC20_PEG: u64 = 0xe20;
const ROOT_PEG: u64 = 0xe21;
const NFT_PEG: u64 = 0xe22;
const TOKEN: u64 = 0x70c;
const STAKE: u64 = 0x707;
const COIN: AssetId = 9124;
/// As the account of a pallet id is derived.
fn pallet(id: &[u8; 8]) -> H160 {
	let mut b = [0u8; 20];
	b[..4].copy_from_slice(b"modl");
	b[4..12].copy_from_slice(id);
	H160(b)
}
fn echo() -> H160 {
	pallet(b"pingpong")
}
fn erc20_peg() -> H160 {
	pallet(b"erc20peg")
}
fn nft_peg() -> H160 {
	pallet(b"rn/nftpg")
}
fn world() {
	genesis(3, 1000);
	dispatch(root(), pallet_assets::Call::force_create { id: COIN, owner: acc(9), is_sufficient: true, min_balance: 1 }).unwrap();
	use pallet_erc20_peg::Call as P;
	dispatch(root(), P::set_erc20_peg_address { eth_address: h(ERC20_PEG) }).unwrap();
	dispatch(root(), P::set_root_peg_address { eth_address: h(ROOT_PEG) }).unwrap();
	dispatch(root(), P::set_erc20_asset_map { asset_id: COIN, eth_address: h(TOKEN) }).unwrap();
	dispatch(root(), P::set_erc20_asset_map { asset_id: ROOT, eth_address: h(STAKE) }).unwrap();
	dispatch(root(), P::activate_deposits { activate: true }).unwrap();
	dispatch(root(), pallet_nft_peg::Call::set_contract_address { contract: h(NFT_PEG) }).unwrap();
	fund(ROOT, erc20_peg(), 500);
}
#[derive(Clone, Debug, PartialEq)]
pub enum Data {
	Coin(u64),
	Root(u64),
	Nft(u64),
	Echo(u64, u64, u64),
	/// cut by a byte
	Short(Box<Data>),
	Empty,
}
impl Data {
	fn bytes(&self) -> Vec<u8> {
		match self {
			Data::Coin(x) => enc(&[V::A(h(TOKEN)), n(*x), V::A(user(1))]),
			Data::Root(x) => enc(&[V::A(h(STAKE)), n(*x), V::A(user(1))]),
			Data::Nft(s) => {
				let mut v = [n(1), n(128), n(192), V::A(user(1))].iter().flat_map(|x| enc(&[x.clone()])).collect::<Vec<u8>>();
				// one contract, one list of one id
				for x in [n(1), V::A(h(TOKEN)), n(1), n(32), n(1), n(*s)] {
					v.extend(enc(&[x]));
				}
				v
			},
			Data::Echo(k, id, to) => enc(&[n(*k), n(*id), V::A(h(*to))]),
			Data::Short(d) => {
				let mut b = d.bytes();
				b.pop();
				b
			},
			Data::Empty => vec![],
		}
	}
}
#[derive(Clone, Debug)]
struct Case {
	from: H160,
	to: H160,
	data: Data,
}
fn sent() -> Vec<(H160, H160, Vec<u8>, u64)> {
	let a = System::events().into_iter().filter_map(|r| match r.event {
		RuntimeEvent::EthBridge(pallet_ethy::Event::EventSend {
			signing_request: pallet_ethy::EthySigningRequest::Ethereum(i), ..
		}) => Some((i.source, i.destination, i.message.to_vec(), i.event_proof_id)),
		_ => None,
	});
	a.collect()
}
fn routed(c: &Case) -> Step {
	thread_local! { static BASE: shim::ext::State = { world(); shim::ext::snapshot() } }
	BASE.with(|s| shim::ext::restore(s));
	System::reset_events();
	let h0 = shim::ext::state_hash();
	let bytes = c.data.bytes();
	let r = EthereumEventRouter::route(&c.from, &c.to, &bytes);
	let kept = shim::ext::state_hash() == h0;
	let out = sent();
	let (coin, stake) = (bal(COIN, user(1)), bal(ROOT, user(1)));
	let nfts = pallet_nft_peg::EthToRootNft::<Runtime>::get(h(TOKEN)).and_then(pallet_nft::CollectionInfo::<Runtime>::get);
	let mine: Vec<u32> = nfts.map_or(vec![], |x| x.owned_tokens.iter().filter(|o| o.owner == acc(1)).flat_map(|o| o.owned_serials.to_vec()).collect());
	let (mut want_coin, mut want_stake, mut want_mine, mut want_out) = (0, 1000, vec![], vec![]);
	let known = [echo(), erc20_peg(), nft_peg()].contains(&c.to);
	let mut want = false;
	// is the call refused after all by a rule of that pallet, or is it not for it at all?
	if c.to == erc20_peg() {
		let peg = [h(ERC20_PEG), h(ROOT_PEG)].contains(&c.from);
		match &c.data {
			Data::Coin(x) => {
				want = c.from == h(ERC20_PEG);
				if want {
					want_coin = *x as u128
				}
			},
			Data::Root(x) => {
				want = c.from == h(ROOT_PEG) && *x <= 500;
				if want {
					want_stake += *x as u128
				}
			},
			// some other token, new here
			_ => want = peg && bytes.len() >= 96 && bytes[32..48] == [0; 16],
		}
	} else if c.to == nft_peg() {
		if let Data::Nft(s) = &c.data {
			if c.from == h(NFT_PEG) {
				want = true;
				want_mine = vec![*s as u32];
			}
		}
	} else if c.to == echo() {
		// whatever the words were meant to be, echo reads a kind, an id and an address
		if bytes.len() >= 96 {
			let (k, id) = (U256::from_big_endian(&bytes[..32]), U256::from_big_endian(&bytes[32..64]));
			want = k < U256::from(2);
			if k == U256::one() {
				let to = H160::from_slice(&bytes[76..96]);
				want_out = vec![(c.from, to, enc(&[n(1), n(id.low_u64()), V::A(to)]), 0)];
			}
		}
	}
	match &r {
		Ok(_) => req!(want, "taken: {c:?} was handled"),
		Err((_, EventRouterError::NoReceiver)) => req!(!known, "receiver: {c:?} has no receiver"),
		Err((_, EventRouterError::FailedProcessing(e))) => {
			req!(known, "receiver: {c:?} was handled");
			req!(!want, "refused: {c:?}: {e:?}")
		},
	}
	req!((coin, stake, mine.clone(), out.clone()) == (want_coin, want_stake, want_mine.clone(), want_out.clone()), "effect: {c:?}: tokens {coin}, ROOT {stake}, NFTs {mine:?}, messages {out:?} - not {want_coin}, {want_stake}, {want_mine:?}, {want_out:?}");
	if !want || c.to == echo() && want_out.is_empty() {
		req!(kept, "changed: {c:?} has an effect");
	}
	Ok(format!("{} {}", [echo(), erc20_peg(), nft_peg()].iter().position(|x| *x == c.to).map_or("nobody", |i| ["echo", "erc20", "nft"][i]), want))
}
fn cases(deep: bool) -> Vec<Case> {
	let pallets = [echo(), erc20_peg(), nft_peg()];
	let mut to: Vec<H160> = pallets.to_vec();
	to.extend([H160::zero(), h(ERC20_PEG), h(ROOT_PEG), h(NFT_PEG), user(1), h(TOKEN), pallet(b"ethybrdg"), H160([0xff; 20])]);
	for p in pallets {
		for i in 0..20 {
			for b in if deep { 0..8 } else { i % 8..i % 8 + 1 } {
				let mut x = p;
				x.0[i] ^= 1 << b;
				to.push(x);
			}
		}
	}
	let mut from = vec![];
	for a in [h(ERC20_PEG), h(ROOT_PEG), h(NFT_PEG)] {
		from.push(a);
		for i in [0, 9, 18, 19] {
			let mut x = a;
			x.0[i] ^= 0x10;
			from.push(x);
		}
	}
	from.extend(pallets);
	from.extend([H160::zero(), h(TOKEN), user(1), H160([0xff; 20])]);
	let mut data = vec![Data::Coin(7), Data::Root(5), Data::Root(500), Data::Root(501), Data::Nft(3), Data::Empty];
	for k in [0, 1, 2, 255, 256, 257, 1 << 32, (1 << 32) + 1, u64::MAX] {
		data.push(Data::Echo(k, 5, 0x99));
	}
	for id in [0, 1, 255, 256, 1 << 32, u64::MAX] {
		for to in [0, 0x98] {
			data.push(Data::Echo(0, id, to));
			data.push(Data::Echo(1, id, to));
		}
	}
	for d in [Data::Coin(7), Data::Root(5), Data::Nft(3), Data::Echo(1, 5, 0x99)] {
		data.push(Data::Short(Box::new(d)));
	}
	let mut v = vec![];
	for f in &from {
		for t in &to {
			for d in &data {
				v.push(Case { from: *f, to: *t, data: d.clone() });
			}
		}
	}
	v
}
#[derive(Clone, Debug, Hash)]
pub struct M {
	session: u64,
	proof: u64,
	paused: bool,
	/// messages noted while the bridge is paused
	later: BTreeMap<u64, (H160, H160, Vec<u8>)>,
}
#[derive(Clone, Debug, Hash)]
pub enum Op {
	Ping { by: Option<usize>, to: u64 },
	Event { from: u64, k: u64, id: u64, to: u64 },
	Pause(bool),
}
pub struct S;
impl Spec for S {
	type R = M;
	type Op = Op;
	fn inits(&self) -> usize {
		4
	}
	fn init(&self, i: usize) -> M {
		world();
		let session = [0, 255, u32::MAX as u64, u64::MAX - 1][i];
		pallet_echo::NextSessionId::<Runtime>::put(session);
		M { session, proof: 0, paused: false, later: Default::default() }
	}
	fn ops(&self, _: &M) -> Vec<Op> {
		let mut v = vec![Op::Pause(true), Op::Pause(false)];
		for to in [0, 0x98, 0x1000_0001] {
			for by in [Some(0), Some(1), Some(7), None] {
				v.push(Op::Ping { by, to });
			}
			for k in [0, 1, 2, 256, 257] {
				for id in [0, 9, u64::MAX] {
					v.push(Op::Event { from: 0x97, k, id, to });
				}
			}
		}
		v
	}
	fn step(&self, m: &mut M, op: &Op) -> Step {
		System::reset_events();
		let h0 = shim::ext::state_hash();
		let mut out = None;
		let mut word = None;
		match op {
			Op::Pause(on) => {
				dispatch(root(), pallet_ethy::Call::set_bridge_paused { paused: *on }).map_err(|e| format!("pause: {e}"))?;
				m.paused = *on;
			},
			Op::Ping { by, to } => {
				let o = by.map_or(root(), |b| signed(user(b)));
				let r = dispatch(o, pallet_echo::Call::ping { destination: h(*to) });
				let want = by.is_some() && m.session < u64::MAX;
				req!(r.is_ok() == want, "ping: {op:?}: {r:?}");
				if let (Some(b), true) = (by, want) {
					out = Some((user(*b), h(*to), enc(&[n(0), n(m.session), V::A(h(*to))])));
					word = Some((m.session, user(*b), true));
					m.session += 1;
				}
			},
			Op::Event { from, k, id, to } => {
				let r = EthereumEventRouter::route(&h(*from), &echo(), &enc(&[n(*k), n(*id), V::A(h(*to))]));
				req!(r.is_ok() == (*k < 2), "event: {op:?} {}", r.is_ok());
				if *k == 1 {
					out = Some((h(*from), h(*to), enc(&[n(1), n(*id), V::A(h(*to))])));
				}
				if *k < 2 {
					word = Some((*id, h(*from), false));
				}
			},
		}
		let got = sent();
		match out {
			Some(x) if m.paused => {
				req!(got.is_empty(), "paused: {op:?} sends {got:?}");
				m.later.insert(m.proof, x);
				m.proof += 1;
			},
			Some((a, b, d)) => {
				req!(got == vec![(a, b, d.clone(), m.proof)], "message: {op:?} sends {got:?}, not {a:?} {b:?} {d:?} {}", m.proof);
				m.proof += 1;
			},
			None => req!(got.is_empty(), "message: {op:?} sends {got:?}"),
		}
		let later: BTreeMap<u64, (H160, H160, Vec<u8>)> = pallet_ethy::PendingEventProofs::<Runtime>::iter()
			.filter_map(|(i, r)| match r {
				pallet_ethy::EthySigningRequest::Ethereum(x) => Some((i, (x.source, x.destination, x.message.to_vec()))),
				_ => None,
			})
			.collect();
		req!(later == m.later, "waiting: {later:?} - not {:?}", m.later);
		req!(pallet_echo::NextSessionId::<Runtime>::get() == m.session, "session: not {}", m.session);
		let said: Vec<(u64, H160, bool)> = System::events()
			.into_iter()
			.filter_map(|e| match e.event {
				RuntimeEvent::Echo(pallet_echo::Event::PingSent { session_id, source, .. }) => Some((session_id, source, true)),
				RuntimeEvent::Echo(pallet_echo::Event::PongReceived { session_id, source, .. }) => Some((session_id, source, false)),
				RuntimeEvent::Echo(pallet_echo::Event::PingReceived { session_id, source, .. }) => Some((session_id, source, false)),
				_ => None,
			})
			.collect();
		req!(said == word.into_iter().collect::<Vec<_>>(), "said: {op:?}: {said:?} - not {word:?}");
		if word.is_none() && !matches!(op, Op::Pause(_)) {
			req!(shim::ext::state_hash() == h0, "changed: {op:?} is refused");
		}
		Ok(kind(op))
	}
}
pub fn run(ctx: &mut Ctx) {
	ctx.enumerate("routes", cases(ctx.thorough()).into_iter(), routed);
	let d = ctx.pick(4, 5);
	ctx.bfs("pings", &S, depth(d));
}
